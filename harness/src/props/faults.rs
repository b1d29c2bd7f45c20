//! C03, C20: failing inputs, failing system calls, failing output.
use super::build;
use crate::engine::*;
use crate::gen::*;
use crate::rng::{hash_bytes, Rng};
use crate::rom::*;
use crate::smf::*;
use crate::song::GenSong;
use serde_json::{json, Value};
use std::io::Read;
use std::process::Stdio;

pub fn shim_env(case: &Case, rules: &str, log: &str) -> Vec<(String, String)> {
    vec![
        ("LD_PRELOAD".into(), case.env.shim.display().to_string()),
        ("MON_FI".into(), rules.into()),
        ("MON_FI_ROOT".into(), format!("{}/", case.dir.display())),
        ("MON_FI_LOG".into(), case.path(log).display().to_string()),
        ("MON_FI_SEED".into(), format!("{}", case.idx.wrapping_mul(7919) + 1)),
    ]
}

/// (op, class, n, bytes, action, file) per intercepted call
pub fn read_log(case: &Case, log: &str) -> Vec<(char, char, u64, u64, char, String)> {
    String::from_utf8_lossy(&case.read(log))
        .lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.split(' ').collect();
            if f.len() != 6 {
                return None;
            }
            Some((
                f[0].chars().next()?,
                f[1].chars().next()?,
                f[2].parse().ok()?,
                f[3].parse().ok()?,
                f[4].chars().next()?,
                f[5].to_string(),
            ))
        })
        .collect()
}

fn nine_notes() -> Vec<u8> {
    let mut ev = vec![];
    for i in 0..9u8 {
        ev.push(Ev { tick: 0, k: K::On { ch: i / 2, note: 40 + i, vel: 90 } });
    }
    for i in 0..9u8 {
        ev.push(Ev { tick: 96, k: K::Off { ch: i / 2, note: 40 + i, vel: 0 } });
    }
    Smf { tpb: 96, tracks: vec![ev], eot_delta: vec![0] }.to_bytes(WriteOpts::default())
}

pub struct Setup {
    pub rom: Rom,
    pub man: Value,
    songs: usize,
}

/// small songs for all slots
pub fn setup(case: &mut Case) -> Result<Setup, Fail> {
    let n = case.rng.us(1, 4);
    let mut files = vec![];
    for i in 0..n {
        let stem = if case.rng.chance(1, 4) { format!("{}{}", crate::rng::odd_stem(&mut case.rng), i) } else { format!("g{}", i) };
        if case.rng.chance(1, 2) {
            let mut st = Style::all();
            st.max_notes = 25;
            st.long = false;
            let p = gen_piece(&mut case.rng, &st);
            if p.guaranteed {
                let b = p.smf.to_bytes(WriteOpts::default());
                case.write(&format!("{}.mid", stem), &b);
                files.push(format!("{}.mid", stem));
                continue;
            }
        }
        let gs = GenSong { max_tracks: 3, max_cmds: 20, loops: true, all_ops: true };
        let s = gs.gen(&mut case.rng);
        case.write(&format!("{}.json", stem), &s.to_json());
        files.push(format!("{}.json", stem));
    }
    let rng = &mut case.rng;
    let man = build::manifest_with(|_, _| json!({"input": *rng.pick(&files), "loop": rng.chance(1, 2)}));
    let mut cfg = RomCfg::random(&mut case.rng);
    for b in 0..3 {
        // at times the songs go on in the overflow area
        cfg.banks[b].main_len = if case.rng.chance(1, 2) { 0x2f00 } else { case.rng.us(0x50, 0xc00) };
        cfg.banks[b].over_aram = 0x1000;
        cfg.banks[b].over_len = 0x8000;
    }
    cfg.ptrs = DEFAULT_PTRS;
    Ok(Setup { rom: cfg.build(), man, songs: files.len() })
}

pub const BAD_SONGS: u64 = 26;

pub fn bad_song(case: &mut Case, kind: u64) -> (String, &'static str) {
    let note = r#"{"duration": 24, "velocity": 10, "sustain": 7, "command": {"Note": 150}}"#;
    match kind {
        0 => ("no such file.mid".into(), "missing MIDI file"),
        1 => ("no such file.json".into(), "missing JSON file"),
        2 => {
            std::fs::create_dir_all(case.path("dir.mid")).unwrap();
            ("dir.mid".into(), "directory instead of a MIDI file")
        }
        3 => {
            std::fs::create_dir_all(case.path("dir.json")).unwrap();
            ("dir.json".into(), "directory instead of a JSON file")
        }
        4 => {
            case.write("bad.json", b"{\"parts\": [");
            ("bad.json".into(), "truncated JSON")
        }
        5 => {
            case.write("bad.json", b"{\"parts\": [{\"tracks\": [0]}], \"tracks\": [{\"commands\": [{\"duration\": 300, \"velocity\": null, \"sustain\": null, \"command\": \"Tie\"}]}]}");
            ("bad.json".into(), "JSON value out of range")
        }
        6 => {
            case.write("bad.mid", b"this is not music at all, really");
            ("bad.mid".into(), "text instead of MIDI")
        }
        7 => {
            case.write("bad.mid", &nine_notes());
            ("bad.mid".into(), "nine simultaneous notes")
        }
        8 => {
            // far larger than both areas
            let mut cmds = vec![];
            for i in 0..30_000u32 {
                cmds.push(json!({"duration": 1 + i % 100, "command": {"Note": 128 + i % 70}}));
            }
            let s = json!({"parts": [{"tracks": [0]}], "tracks": [{"commands": cmds}]});
            case.write("bad.json", s.to_string().as_bytes());
            ("bad.json".into(), "song too large")
        }
        9 => {
            case.write("bad.json", b"");
            ("bad.json".into(), "empty file")
        }
        10 => {
            case.write("bad.json", b"{\"parts\": [{\"tracks\": [5]}], \"tracks\": []}");
            ("bad.json".into(), "part names a missing track")
        }
        11 => {
            let b = nine_notes();
            case.write("bad.mid", &b[..b.len() - 15]);
            ("bad.mid".into(), "truncated MIDI")
        }
        12..=20 => {
            let call = |t: u64, n: u64| format!(r#"{{"duration": 0, "velocity": 0, "sustain": 0, "command": {{"CallLoop": [{}, {}]}}}}"#, t, n);
            let track = |c: &[&str]| format!(r#"{{"commands": [{}]}}"#, c.join(","));
            let (parts, tracks, what) = match kind {
                12 => ("".to_string(), track(&[note]), "song without parts"),
                13 => (format!(r#"{{"tracks": [{}]}}"#, vec!["0"; 9].join(",")), track(&[note]), "part with nine tracks"),
                14 => (r#"{"tracks": [0]}"#.to_string(), track(&[note, &call(9, 2)]), "call of a missing loop"),
                15 => (
                    r#"{"tracks": [0]}"#.to_string(),
                    format!("{},{},{}", track(&[note, &call(1, 2)]), track(&[note, &call(2, 2)]), track(&[note])),
                    "nested loop calls",
                ),
                16 => (r#"{"tracks": [0]}"#.to_string(), format!("{},{}", track(&[note, &call(1, 0)]), track(&[note])), "loop called zero times"),
                17 => (
                    r#"{"tracks": [0]}"#.to_string(),
                    track(&[r#"{"duration": 24, "velocity": 10, "sustain": 7, "command": {"Note": 100}}"#]),
                    "note below the driver's range",
                ),
                18 => (
                    r#"{"tracks": [0]}"#.to_string(),
                    track(&[r#"{"duration": 200, "velocity": 10, "sustain": 7, "command": {"Note": 150}}"#]),
                    "duration beyond 127",
                ),
                19 => (r#"{"tracks": [0]}"#.to_string(), track(&[note, &call(0, 2)]), "loop that calls itself"),
                _ => (
                    r#"{"tracks": [0]}"#.to_string(),
                    track(&[r#"{"duration": 24, "velocity": 10, "sustain": 7, "command": {"Nonsense": 1}}"#]),
                    "unknown command",
                ),
            };
            case.write("bad.json", format!(r#"{{"parts": [{}], "tracks": [{}]}}"#, parts, tracks).as_bytes());
            ("bad.json".into(), what)
        }
        21 | 22 => {
            // a good piece with another header
            let n = [K::On { ch: 0, note: 60, vel: 90 }, K::Off { ch: 0, note: 60, vel: 0 }];
            let ev = n.iter().enumerate().map(|(i, k)| Ev { tick: 96 * i as u64, k: k.clone() }).collect();
            let mut b = Smf { tpb: 96, tracks: vec![ev], eot_delta: vec![0] }.to_bytes(WriteOpts::default());
            let what = if kind == 21 {
                b[9] = 2;
                "MIDI format 2"
            } else {
                b[12] = 0;
                b[13] = 0;
                "time base zero"
            };
            case.write("bad.mid", &b);
            ("bad.mid".into(), what)
        }
        23 => {
            case.write("bad.mid", b"");
            ("bad.mid".into(), "empty MIDI file")
        }
        24 => {
            case.write("bad.json", format!(r#"{{"parts": [{{"tracks": [0]}}], "tracks": [{{"commands": [{}]}}]}} trailing"#, note).as_bytes());
            ("bad.json".into(), "text after the song")
        }
        _ => {
            let b = nine_notes();
            case.write("bad.mid", &b[..14]);
            ("bad.mid".into(), "MIDI header alone")
        }
    }
}

/// one of the bad songs that are MIDI files
pub fn bad_midi(case: &mut Case) -> (String, &'static str) {
    let kind = *case.rng.pick(&[0u64, 2, 6, 7, 11, 21, 22, 23, 25]);
    bad_song(case, kind)
}

pub fn c03(case: &mut Case) -> Res {
    let s = setup(case)?;
    match case.rng.weighted(&[5, 1, 4, 3]) {
        0 => c03_bad_song(case, s),
        1 => c03_bad_files(case, s),
        2 => c03_faults(case, s),
        _ => c03_outputs(case, s),
    }
}

fn must_fail(case: &Case, run: &Run, rom: &[u8], name: &str, what: &str) -> Res {
    if run.signal == Some(14) || run.signal == Some(24) {
        return Err(Fail::Inconclusive(format!("{}: timed out", what)));
    }
    if run.ok() {
        viol!("{}: the build reports success", what);
    }
    if run.code.is_none() {
        viol!("{}: the build was ended by signal {:?} instead of reporting failure", what, run.signal);
    }
    let after = case.read(name);
    if after != rom {
        viol!("{}: the failed build changed the ROM ({} bytes before, {} after)", what, rom.len(), after.len());
    }
    Ok(())
}

/// the options a command may be given
fn flags(rng: &mut Rng) -> Vec<&'static str> {
    rng.pick(&[&[][..], &["-v"], &["-s"], &["-sv"], &["-s", "-v"]]).to_vec()
}

fn c03_bad_song(case: &mut Case, s: Setup) -> Res {
    let kind = case.rng.below(BAD_SONGS);
    let (file, what) = bad_song(case, kind);
    // early, late and middle slots of every bank
    let b = case.rng.us(0, 2);
    let i = match case.rng.below(3) {
        0 => 0,
        1 => SLOTS[b] - 1,
        _ => case.rng.us(0, SLOTS[b] - 1),
    };
    let mut man = s.man.clone();
    man[build::NAMES[b].0][build::NAMES[b].1[i]]["input"] = json!(file);
    case.write("m.json", man.to_string().as_bytes());
    case.write("r.smc", &s.rom.data);
    let mut args = flags(&mut case.rng);
    args.extend(&["build_rom", "m.json", "r.smc"]);
    let run = case.run(&args);
    case.sig(hash_bytes(format!("bad{}-{}-{}-{}", kind, b, i, args[0]).as_bytes()));
    case.count("bad_songs", 1);
    case.sample = Some(json!({"case": case.idx, "bad_song": what, "bank": b, "slot": i, "exit": run.code}));
    must_fail(case, &run, &s.rom.data, "r.smc", &format!("{} at {}/{}", what, build::NAMES[b].0, build::NAMES[b].1[i]))
}

fn c03_bad_files(case: &mut Case, s: Setup) -> Res {
    case.write("m.json", s.man.to_string().as_bytes());
    case.write("r.smc", &s.rom.data);
    let k = case.rng.below(13);
    let mut rom = s.rom.data.clone();
    let (what, args): (&str, Vec<&str>) = match k {
        0 => ("missing manifest", vec!["build_rom", "none.json", "r.smc"]),
        1 => {
            case.write("m.json", &s.man.to_string().as_bytes()[..200]);
            ("truncated manifest", vec!["build_rom", "m.json", "r.smc"])
        }
        2 => {
            let mut m = s.man.clone();
            let b = case.rng.us(0, 2);
            let i = case.rng.us(0, SLOTS[b] - 1);
            m[build::NAMES[b].0].as_object_mut().unwrap().remove(build::NAMES[b].1[i]);
            case.write("m.json", m.to_string().as_bytes());
            ("manifest without one of the songs", vec!["build_rom", "m.json", "r.smc"])
        }
        3 => {
            let mut m = s.man.clone();
            m[build::NAMES[2].0][build::NAMES[2].1[2]]["input"] = json!(7);
            case.write("m.json", m.to_string().as_bytes());
            ("manifest with a number as input", vec!["build_rom", "m.json", "r.smc"])
        }
        4 => {
            rom.truncate(0x925);
            case.write("r.smc", &rom);
            ("ROM cut before the bank pointers", vec!["build_rom", "m.json", "r.smc"])
        }
        5 => {
            rom.clear();
            case.write("r.smc", &rom);
            ("empty ROM", vec!["build_rom", "m.json", "r.smc"])
        }
        6 => {
            // the last bank has no song chunk
            let bi = s.rom.bank(2).map_err(Fail::Inconclusive)?;
            let h = bi.main().hdr;
            rom[h + 3] = 0xaa;
            case.write("r.smc", &rom);
            ("last bank without a song chunk", vec!["build_rom", "m.json", "r.smc"])
        }
        7 => {
            let bi = s.rom.bank(2).map_err(Fail::Inconclusive)?;
            let h = bi.main().hdr;
            rom.truncate(h + 3);
            case.write("r.smc", &rom);
            ("ROM cut inside the last bank's chunk chain", vec!["build_rom", "m.json", "r.smc"])
        }
        8 => {
            let m = s.man.to_string();
            case.write("m.json", (m + "}").as_bytes());
            ("text after the manifest", vec!["build_rom", "m.json", "r.smc"])
        }
        9 => {
            let mut m = s.man.clone();
            m.as_object_mut().unwrap().remove(build::NAMES[case.rng.us(0, 2)].0);
            case.write("m.json", m.to_string().as_bytes());
            ("manifest without one of the banks", vec!["build_rom", "m.json", "r.smc"])
        }
        10 | 11 => {
            let song = if k == 10 { "s.mid" } else { "m.json" };
            case.write("s.mid", &nine_notes());
            std::fs::remove_file(case.path("r.smc")).map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let cmd = *case.rng.pick(&["build_rom", "all_overworld", "file_select", "gen_fake_rom"]);
            let args = match cmd {
                "build_rom" => vec![cmd, "m.json", "r.smc"],
                "gen_fake_rom" => vec![cmd, "r.smc", "o.smc"],
                _ => vec![cmd, song, "r.smc"],
            };
            let mut all = flags(&mut case.rng);
            all.extend(args);
            let run = case.run(&all);
            case.sig(hash_bytes(format!("norom{}{}", cmd, k).as_bytes()));
            case.count("bad_files", 1);
            if run.ok() {
                viol!("{}: success reported without a ROM", cmd);
            }
            if run.code.is_none() {
                viol!("{} without a ROM: ended by signal {:?}", cmd, run.signal);
            }
            if case.path("r.smc").exists() {
                viol!("{}: a failed command created the missing ROM", cmd);
            }
            return Ok(());
        }
        _ => {
            case.write("bad.mid", &nine_notes());
            ("file_select with nine simultaneous notes", vec!["file_select", "bad.mid", "r.smc"])
        }
    };
    let mut all = flags(&mut case.rng);
    all.extend(args);
    let run = case.run(&all);
    case.sig(hash_bytes(what.as_bytes()));
    case.count("bad_files", 1);
    must_fail(case, &run, &rom, "r.smc", what)
}

fn c03_faults(case: &mut Case, s: Setup) -> Res {
    case.write("m.json", s.man.to_string().as_bytes());
    case.write("ref.smc", &s.rom.data);
    let opts = flags(&mut case.rng);
    let args = |rom: &'static str| -> Vec<&'static str> {
        let mut a = opts.clone();
        a.extend(&["build_rom", "m.json", rom]);
        a
    };
    let e = shim_env(case, "", "log0");
    let run = case.run_opts(&args("ref.smc"), Opts { env: e, ..Opts::default() });
    case.judge_ok(&run)?;
    let want = case.read("ref.smc");
    let log = read_log(case, "log0");
    let nw = log.iter().filter(|l| l.0 == 'w' && l.1 == 'f').count() as u64;
    let nr = log.iter().filter(|l| l.0 == 'r' && l.1 == 'f').count() as u64;
    if nw == 0 || nr == 0 {
        return Err(Fail::Inconclusive(format!("the shim saw {} writes and {} reads", nw, nr)));
    }
    let rom_reads: Vec<u64> = log.iter().filter(|l| l.0 == 'r' && l.1 == 'f' && l.5 == "ref.smc").map(|l| l.2).collect();
    case.count("rom_reads_seen", rom_reads.len() as u64);
    case.count("file_writes_seen", nw);
    case.count("file_reads_seen", nr);
    for j in 0..5 {
        let log_name = format!("log{}", j + 1);
        case.write("r.smc", &s.rom.data);
        let write = case.rng.chance(1, 2);
        let (rule, kind): (String, &str) = if write {
            let n = case.rng.range(1, nw);
            match case.rng.below(6) {
                5 => {
                    // nothing is written: once, or whenever it is tried
                    let n = if case.rng.chance(1, 2) { 0 } else { n };
                    (format!("w,f,{},short,0", n), "nothing")
                }
                0 => (format!("w,f,{},err,28", n), "ENOSPC"),
                1 => (format!("w,f,{},err,5", n), "EIO"),
                2 => (format!("w,f,{},err,4", n), "EINTR"),
                3 => {
                    let k = case.rng.range(1, want.len() as u64);
                    // every write of the build is short
                    (format!("w,f,0,short,{}", k.max(2000)), "short")
                }
                _ => {
                    // a short write, then a full disk
                    let k = case.rng.range(1, want.len() as u64 - 1);
                    (format!("w,f,1,short,{};w,f,2,err,28;w,f,3,err,28;w,f,4,err,28", k), "short then ENOSPC")
                }
            }
        } else {
            // the calls that read the ROM are few among those that read a JSON file
            let n = if !rom_reads.is_empty() && case.rng.chance(1, 2) { *case.rng.pick(&rom_reads) } else { case.rng.range(1, nr) };
            match case.rng.below(5) {
                0 => (format!("r,f,{},err,5", n), "EIO"),
                4 => (format!("r,f,{},short,{};r,f,{},err,5", n, case.rng.range(1, 9000), n + 1), "short then EIO"),
                1 => (format!("r,f,{},err,4", n), "EINTR"),
                2 => {
                    let k = case.rng.range(500, 5000);
                    (format!("r,f,0,short,{}", k), "short")
                }
                _ => (format!("r,f,{},kill,0", n), "kill"),
            }
        };
        let e = shim_env(case, &rule, &log_name);
        let run = case.run_opts(&args("r.smc"), Opts { env: e, ..Opts::default() });
        let log = read_log(case, &log_name);
        let fired = log.iter().filter(|l| l.4 != '-').count() as u64 + (run.signal == Some(9)) as u64;
        case.count("shim_actions", fired);
        case.sig(hash_bytes(rule.as_bytes()));
        let after = case.read("r.smc");
        let what = format!("{} ({} calls affected): {}", rule, fired, run.brief());
        if fired == 0 {
            continue;
        }
        if run.signal == Some(14) || run.signal == Some(24) {
            return Err(Fail::Inconclusive(format!("{}: timed out", what)));
        }
        if write {
            case.count("write_faults", 1);
            case.count(&format!("write_{}", kind), 1);
            let hard = kind != "EINTR" && kind != "short" && kind != "nothing";
            // did an error really reach the tool?
            let errs = log.iter().filter(|l| l.4 == 'e').count();
            if run.ok() {
                if hard && errs > 0 {
                    viol!("write error, but the build reports success: {}", what);
                }
                if after != want {
                    let at = (0..want.len().min(after.len())).find(|&i| want[i] != after[i]).unwrap_or(after.len());
                    viol!("the build reports success, but the ROM file is incomplete from {:x} on ({} bytes, expected {}): {}", at, after.len(), want.len(), what);
                }
                case.count("complete_after_fault", 1);
            } else {
                if run.code.is_none() {
                    viol!("ended by signal {:?}: {}", run.signal, what);
                }
                if kind == "short" {
                    viol!("short writes make the build fail: {}", what);
                }
                case.count("failure_reported", 1);
            }
        } else {
            case.count("read_faults", 1);
            case.count(&format!("read_{}", kind), 1);
            if run.ok() {
                if kind == "EIO" || kind == "kill" || (kind == "short then EIO" && log.iter().any(|l| l.4 == 'e')) {
                    viol!("read error, but the build reports success: {}", what);
                }
                if after != want {
                    viol!("the build reports success, but the ROM differs: {}", what);
                }
                case.count("complete_after_fault", 1);
            } else {
                if kind == "short" {
                    viol!("short reads make the build fail: {}", what);
                }
                if run.code.is_none() && kind != "kill" {
                    viol!("ended by signal {:?}: {}", run.signal, what);
                }
                if after != s.rom.data {
                    viol!("the failed build changed the ROM: {}", what);
                }
                case.count("failure_reported", 1);
            }
        }
    }
    case.sample = Some(json!({"case": case.idx, "songs": s.songs, "file_reads": nr, "file_writes": nw}));
    Ok(())
}

/// the other two writers: dummy ROM and JSON export
fn c03_outputs(case: &mut Case, s: Setup) -> Res {
    let dummy = case.rng.chance(1, 2);
    let st = Style { max_notes: 40, long: false, ..Style::all() };
    let p = gen_piece(&mut case.rng, &st);
    if !dummy && !p.guaranteed {
        return Ok(());
    }
    case.write("s.mid", &p.smf.to_bytes(WriteOpts::default()));
    case.write("real.smc", &s.rom.data);
    let args = |out: &'static str| -> Vec<&'static str> {
        if dummy {
            vec!["gen_fake_rom", "real.smc", out]
        } else {
            vec!["midi2json", "s.mid", out]
        }
    };
    let e = shim_env(case, "", "log0");
    let run = case.run_opts(&args("ref.out"), Opts { env: e, ..Opts::default() });
    case.judge_ok(&run)?;
    let want = case.read("ref.out");
    let nw = read_log(case, "log0").iter().filter(|l| l.0 == 'w' && l.1 == 'f').count() as u64;
    if nw == 0 {
        return Err(Fail::Inconclusive("the shim saw no writes".into()));
    }
    for j in 0..4 {
        let log_name = format!("log{}", j + 1);
        let n = case.rng.range(1, nw);
        let (rule, hard) = match case.rng.below(5) {
            4 => (format!("w,f,{},short,0", if case.rng.chance(1, 2) { 0 } else { n }), false),
            0 => (format!("w,f,{},err,28", n), true),
            1 => (format!("w,f,{},err,5", n), true),
            2 => (format!("w,f,{},err,4", n), false),
            _ => (format!("w,f,{},short,{}", if nw > 20 { n } else { 0 }, (want.len() / 3).max(1)), false),
        };
        if case.rng.chance(1, 2) {
            case.write("x.out", &vec![0x77; want.len() + 100]);
        }
        let e = shim_env(case, &rule, &log_name);
        let run = case.run_opts(&args("x.out"), Opts { env: e, ..Opts::default() });
        let fired = read_log(case, &log_name).iter().filter(|l| l.4 != '-').count() as u64;
        case.count("shim_actions", fired);
        case.sig(hash_bytes(format!("{}{}", dummy, rule).as_bytes()));
        if run.signal == Some(14) || run.signal == Some(24) {
            return Err(Fail::Inconclusive("timed out".into()));
        }
        if fired == 0 {
            continue;
        }
        case.count("write_faults", 1);
        if run.ok() {
            if hard {
                viol!("{}: write error ({}), but success is reported", case.last_cmd, rule);
            }
            if case.read("x.out") != want {
                viol!("{}: success is reported, but the output is incomplete ({})", case.last_cmd, rule);
            }
        } else if run.code.is_none() {
            viol!("{}: ended by signal {:?} ({})", case.last_cmd, run.signal, rule);
        }
    }
    // a device that is always full
    if !dummy && std::path::Path::new("/dev/full").exists() {
        let run = case.run(&["midi2json", "s.mid", "/dev/full"]);
        case.count("write_faults", 1);
        if run.ok() {
            viol!("JSON export to a full device reports success");
        }
        if run.code.is_none() {
            viol!("JSON export to a full device ended by signal {:?}", run.signal);
        }
    }
    Ok(())
}

pub enum Out {
    Null,
    Closed,
    DevFull,
    Broken,
    Slow,
    Pause,
    /// a terminal of this size, which goes away after so many bytes
    Terminal(u16, u16, Option<u64>),
    Shim(String),
}

extern "C" {
    fn ioctl(fd: i32, req: u64, ...) -> i32;
}

/// both ends of a new terminal
fn terminal(rows: u16, cols: u16) -> std::io::Result<(std::fs::File, std::fs::File)> {
    use std::os::fd::AsRawFd;
    use std::os::unix::fs::OpenOptionsExt;
    const TIOCSPTLCK: u64 = 0x4004_5431;
    const TIOCGPTN: u64 = 0x8004_5430;
    const TIOCSWINSZ: u64 = 0x5414;
    const O_NOCTTY: i32 = 0o400;
    let mut o = std::fs::OpenOptions::new();
    o.read(true).write(true).custom_flags(O_NOCTTY);
    let master = o.open("/dev/ptmx")?;
    let (unlock, mut n) = (0i32, 0u32);
    let size = [rows, cols, 0, 0];
    let fd = master.as_raw_fd();
    let ok = unsafe {
        ioctl(fd, TIOCSPTLCK, &unlock as *const i32) == 0
            && ioctl(fd, TIOCGPTN, &mut n as *mut u32) == 0
            && ioctl(fd, TIOCSWINSZ, size.as_ptr()) == 0
    };
    if !ok {
        return Err(std::io::Error::last_os_error());
    }
    let slave = o.open(format!("/dev/pts/{}", n))?;
    Ok((master, slave))
}

pub fn run_with_output(case: &mut Case, args: &[&str], out: &Out, log: &str) -> Run {
    let mut o = Opts { wall: 120, ..Opts::default() };
    match out {
        Out::Null => case.run_opts(args, o),
        Out::Closed => {
            o.close_stdout = true;
            case.run_opts(args, o)
        }
        Out::DevFull => {
            let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
            o.stdout = Some(Stdio::from(f));
            case.run_opts(args, o)
        }
        Out::Broken => {
            let (r, w) = std::io::pipe().expect("pipe");
            drop(r);
            o.stdout = Some(Stdio::from(w));
            case.run_opts(args, o)
        }
        Out::Slow | Out::Pause => {
            let (mut r, w) = std::io::pipe().expect("pipe");
            o.stdout = Some(Stdio::from(w));
            let pause = matches!(out, Out::Pause);
            let mut rng = Rng::new(case.rng.next());
            let total = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
            let t2 = total.clone();
            let h = std::thread::spawn(move || {
                let mut buf = vec![0u8; 4096];
                if pause {
                    std::thread::sleep(std::time::Duration::from_millis(rng.range(100, 700)));
                }
                loop {
                    let n = if pause { 4096 } else { rng.us(1, 2000) };
                    match r.read(&mut buf[..n]) {
                        Ok(0) | Err(_) => break,
                        Ok(k) => {
                            t2.fetch_add(k as u64, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                    if !pause && rng.chance(1, 3) {
                        std::thread::sleep(std::time::Duration::from_micros(rng.range(1, 3000)));
                    }
                }
            });
            let run = case.run_opts(args, o);
            let _ = h.join();
            case.count("display_bytes_read", total.load(std::sync::atomic::Ordering::Relaxed));
            case.count("slow_readers", 1);
            run
        }
        Out::Terminal(rows, cols, gone) => {
            let (mut r, w) = match terminal(*rows, *cols) {
                Ok(x) => x,
                Err(_) => return case.run_opts(args, o),
            };
            o.stdout = Some(Stdio::from(w));
            let gone = *gone;
            let h = std::thread::spawn(move || {
                let (mut buf, mut total) = (vec![0u8; 4096], 0u64);
                while gone.map_or(true, |g| total < g) {
                    match r.read(&mut buf) {
                        Ok(0) | Err(_) => break,
                        Ok(k) => total += k as u64,
                    }
                }
                total
            });
            let run = case.run_opts(args, o);
            let total = h.join().unwrap_or(0);
            case.count("terminal_bytes_shown", total);
            case.count(if gone.is_some() { "terminals_gone" } else { "terminals" }, 1);
            run
        }
        Out::Shim(rules) => {
            o.env = shim_env(case, rules, log);
            let run = case.run_opts(args, o);
            let l = read_log(case, log);
            case.count("stdout_writes_seen", l.iter().filter(|x| x.1 == '1').count() as u64);
            case.count("shim_actions", l.iter().filter(|x| x.4 != '-').count() as u64);
            run
        }
    }
}

pub fn c20(case: &mut Case) -> Res {
    let s = setup(case)?;
    let failing = case.rng.chance(1, 3);
    let cmd = *case.rng.pick(&["build_rom", "build_rom", "build_rom", "build_rom", "build_rom", "midi2json", "all_overworld", "file_select"]);
    let mut input = "m.json".to_string();
    let mut before = s.rom.data.clone();
    let mut what = format!("successful {}", cmd);
    if cmd == "build_rom" {
        let mut man = s.man.clone();
        if failing {
            let kind = case.rng.below(BAD_SONGS);
            let (file, w) = bad_song(case, kind);
            let b = case.rng.us(0, 2);
            let i = case.rng.us(0, SLOTS[b] - 1);
            man[build::NAMES[b].0][build::NAMES[b].1[i]]["input"] = json!(file);
            what = format!("{} at {}/{}", w, build::NAMES[b].0, build::NAMES[b].1[i]);
        }
        case.write("m.json", man.to_string().as_bytes());
    } else if failing {
        let (file, w) = if cmd == "midi2json" {
            bad_midi(case)
        } else {
            let kind = case.rng.below(BAD_SONGS);
            bad_song(case, kind)
        };
        input = file;
        what = format!("{} with {}", cmd, w);
    } else {
        let st = Style { max_notes: *case.rng.pick(&[5usize, 25, 60]), long: false, ..Style::all() };
        let p = if case.rng.chance(1, 4) { gen_sections(&mut case.rng, false) } else { gen_piece(&mut case.rng, &st) };
        if !p.guaranteed {
            return Ok(());
        }
        if case.rng.chance(1, 2) {
            input = format!("{}.mid", crate::rng::odd_stem(&mut case.rng));
            case.count("odd_names", 1);
        } else {
            input = "piece.mid".into();
        }
        case.write(&input, &p.smf.to_bytes(WriteOpts::default()));
    }
    if cmd == "midi2json" {
        before = vec![0x20; case.rng.us(0, 3000)];
    }
    case.write("ref.out", &before);
    let flag: Option<&str> = match case.rng.below(6) {
        0 | 1 => Some("-v"),
        2 => Some("-s"),
        _ => None,
    };
    if flag == Some("-v") {
        what.push_str(", verbose");
        case.count("verbose_builds", 1);
    }
    case.count(&format!("cmd_{}", cmd), 1);
    let input = input.as_str();
    let build_args = |out: &'static str| -> Vec<&str> { flag.into_iter().chain([cmd, input, out]).collect() };
    let e = shim_env(case, "", "log0");
    let r0 = case.run_opts(&build_args("ref.out"), Opts { env: e, ..Opts::default() });
    let want = case.read("ref.out");
    let failing = if failing {
        if !r0.clean_failure() {
            return Err(Fail::Violation(format!("{}: {}", what, r0.brief())));
        }
        case.count("failing_builds", 1);
        true
    } else if cmd != "build_rom" && r0.clean_failure() {
        // (a piece that does not fit)
        case.count("failing_builds", 1);
        true
    } else {
        case.judge_ok(&r0)?;
        case.count("successful_builds", 1);
        false
    };
    let nout = read_log(case, "log0").iter().filter(|l| l.0 == 'w' && l.1 == '1').count() as u64;
    case.count("display_writes", nout);
    let nfile = read_log(case, "log0").iter().filter(|l| l.1 == 'f').count() as u64;
    // delays add up to about a second per build, however many calls it makes
    let per_file = (500_000 / nfile.max(1)).clamp(1, 30_000);
    let per_line = (500_000 / nout.max(1)).clamp(1, 30_000);

    for j in 0..5 {
        let n = case.rng.range(1, nout.max(1) + 3);
        let (out, name) = match case.rng.below(13) {
            11 | 12 => {
                let rows = *case.rng.pick(&[0u16, 1, 3, 4, 24, 24, 50]);
                let cols = *case.rng.pick(&[0u16, 1, 2, 3, 5, 10, 20, 33, 60, 79, 80, 81, 132, 500, 20000, 65535]);
                let gone = if case.rng.chance(1, 3) { Some(case.rng.below(6000)) } else { None };
                (Out::Terminal(rows, cols, gone), format!("terminal{}", if gone.is_some() { " gone" } else { "" }))
            }
            0 => (Out::Closed, "closed".to_string()),
            1 => (Out::DevFull, "device full".to_string()),
            2 => (Out::Broken, "broken pipe".to_string()),
            3 => (Out::Slow, "slow reader".to_string()),
            4 => (Out::Pause, "paused reader".to_string()),
            5 => (Out::Shim(format!("w,1,{},err,{}", n, case.rng.pick(&[5u32, 28, 32, 11, 9]))), "error once".to_string()),
            6 => (Out::Shim(format!("w,1,0,err,{}", case.rng.pick(&[5u32, 28, 32, 11]))), "error always".to_string()),
            7 => (Out::Shim(format!("w,1,0,short,{}", case.rng.range(1, 9))), "short writes".to_string()),
            8 => (Out::Shim(format!("w,1,0,delay,{}", per_line)), "delayed display".to_string()),
            9 => (Out::Shim(if nfile > 30_000 {
                // (a large JSON song is read byte by byte)
                let n = case.rng.range(1, nfile);
                format!("r,f,{},delay,400000;w,f,1,delay,200000;w,1,0,delay,{}", n, per_line / 4 + 1)
            } else {
                format!("r,f,0,delay,{0};w,f,0,delay,{0};w,1,0,delay,{1}", per_file, per_line / 4 + 1)
            }), "delayed build".to_string()),
            _ => (Out::Null, "no display".to_string()),
        };
        case.write("x.out", &before);
        let rule = match &out {
            Out::Shim(r) => r.clone(),
            Out::Terminal(r, c, g) => format!("terminal of {}x{}, gone after {:?}", c, r, g),
            _ => name.clone(),
        };
        case.sig(hash_bytes(format!("{}/{}", what, rule).as_bytes()));
        let run = run_with_output(case, &build_args("x.out"), &out, &format!("log{}", j + 1));
        case.count("stdout_faults", 1);
        if flag == Some("-v") {
            case.count("verbose_faults", 1);
        }
        case.count(&format!("fault_{}", name.replace(' ', "_")), 1);
        if run.signal == Some(14) || run.signal == Some(24) {
            viol!("{} with {}: did not end within {} s", what, rule, 120);
        }
        if run.code != r0.code {
            viol!("{} with output fault '{}': {} instead of exit {:?}", what, rule, run.brief(), r0.code);
        }
        if failing && run.stderr.trim().is_empty() {
            viol!("{} with output fault '{}': no error message", what, rule);
        }
        let after = case.read("x.out");
        if after != want {
            let at = (0..want.len().min(after.len())).find(|&i| want[i] != after[i]);
            viol!("{} with output fault '{}': the output differs at {:x?}", what, rule, at);
        }
        if run.wall > 60.0 {
            viol!("{} with output fault '{}': took {:.0} s", what, rule, run.wall);
        }
    }
    case.sample = Some(json!({"case": case.idx, "build": what, "display_writes": nout, "exit": r0.code}));
    Ok(())
}
