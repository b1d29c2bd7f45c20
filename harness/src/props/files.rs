//! C21: which files a command changes.
use super::build;
use super::faults;
use crate::engine::*;
use crate::gen::*;
use crate::rng::hash_bytes;
use crate::smf::*;
use crate::song::GenSong;
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::MetadataExt;
use std::path::Path;

#[derive(Clone, PartialEq, Debug)]
enum Entry {
    Dir,
    File { len: u64, hash: u64, mode: u32 },
    Link(String),
    Other,
}

/// everything below a directory (the monitor's own files excepted)
fn snapshot(root: &Path) -> BTreeMap<String, Entry> {
    fn walk(d: &Path, pre: &str, out: &mut BTreeMap<String, Entry>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if pre.is_empty() && name.starts_with(".stderr") {
                continue;
            }
            let at = format!("{}{}", pre, name);
            let Ok(md) = std::fs::symlink_metadata(e.path()) else { continue };
            let entry = if md.is_dir() {
                walk(&e.path(), &format!("{}/", at), out);
                Entry::Dir
            } else if md.file_type().is_symlink() {
                Entry::Link(std::fs::read_link(e.path()).map(|p| p.display().to_string()).unwrap_or_default())
            } else if md.is_file() {
                let b = std::fs::read(e.path()).unwrap_or_default();
                Entry::File { len: b.len() as u64, hash: hash_bytes(&b), mode: md.mode() }
            } else {
                Entry::Other
            };
            out.insert(at, entry);
        }
    }
    let mut out = BTreeMap::new();
    walk(root, "", &mut out);
    out
}

/// the changes between two snapshots, in words
fn changes(a: &BTreeMap<String, Entry>, b: &BTreeMap<String, Entry>) -> Vec<(String, &'static str)> {
    let mut out = vec![];
    for (k, e) in a {
        match b.get(k) {
            None => out.push((k.clone(), "removed")),
            Some(f) if f != e => out.push((k.clone(), "changed")),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            out.push((k.clone(), "added"));
        }
    }
    out
}

/// names that a tool might choose for a copy, a cache or a temporary file of the given one
fn neighbours(path: &str) -> Vec<String> {
    let (dir, name) = path.rsplit_once('/').map_or((String::new(), path), |(d, n)| (format!("{}/", d), n));
    let stem = name.rsplit_once('.').map_or(name, |x| x.0);
    let mut out = vec![];
    for e in ["bak", "tmp", "old", "new", "orig", "part", "lock", "json", "smc", "mid", "cache", "log"] {
        out.push(format!("{}{}.{}", dir, name, e));
        out.push(format!("{}{}.{}", dir, stem, e));
        out.push(format!("{}.{}.{}", dir, name, e));
    }
    out.push(format!("{}{}~", dir, name));
    out.push(format!("{}{}2", dir, name));
    out.push(format!("{}tmp", dir));
    out.push(format!("{}{}", dir, stem));
    out
}

pub fn c21(case: &mut Case) -> Res {
    let s = faults::setup(case)?;
    // the songs that setup wrote lie in the case's directory; manifests name them from there
    for d in ["work", "in", "home", "tmp", "out dir"] {
        std::fs::create_dir_all(case.path(d)).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    }
    let cmd = *case.rng.pick(&["build_rom", "build_rom", "all_overworld", "file_select", "midi2json", "midi2json", "gen_fake_rom", "gen_fake_rom", "dump_midi"]);
    let fails = case.rng.chance(2, 5);
    let st = Style { max_notes: 60, long: false, ..Style::all() };
    let mut what = String::from("good input");
    // the song of a single-song command
    let mut song = String::from("in/song.mid");
    let p = loop {
        let p = gen_piece(&mut case.rng, &st);
        if p.guaranteed {
            break p;
        }
    };
    let bytes = p.smf.to_bytes(WriteOpts::default());
    case.write("in/song.mid", &bytes);
    if (cmd == "all_overworld" || cmd == "file_select") && case.rng.chance(1, 2) {
        let gs = GenSong { max_tracks: 3, max_cmds: 30, loops: true, all_ops: true };
        let js = gs.gen(&mut case.rng).to_json();
        case.write("in/song.json", &js);
        song = "in/song.json".into();
    }
    let mut rom = s.rom.data.clone();
    let mut man = s.man.clone();
    if fails {
        match cmd {
            "gen_fake_rom" => {
                let bi = s.rom.bank(case.rng.us(0, 2)).map_err(Fail::Inconclusive)?;
                match case.rng.below(4) {
                    0 => rom.clear(),
                    1 => rom.truncate(case.rng.us(1, 0x91c)),
                    2 => rom.truncate(bi.chunks.last().map_or(1, |c| c.hdr) + case.rng.us(0, 3)),
                    _ => {
                        // a bank pointer to beyond the end
                        let k = crate::rom::pc(s.rom.ptrs[2] + 8);
                        rom[k] = 0xff;
                    }
                }
                what = format!("broken ROM of {} bytes", rom.len());
            }
            "build_rom" => {
                let kind = case.rng.below(faults::BAD_SONGS);
                let (file, w) = faults::bad_song(case, kind);
                let b = case.rng.us(0, 2);
                let i = case.rng.us(0, crate::rom::SLOTS[b] - 1);
                man[build::NAMES[b].0][build::NAMES[b].1[i]]["input"] = json!(file);
                what = format!("{} at {}/{}", w, build::NAMES[b].0, build::NAMES[b].1[i]);
            }
            "dump_midi" => {
                let (file, w) = faults::bad_midi(case);
                song = file;
                what = w.into();
            }
            "midi2json" => {
                let (file, w) = faults::bad_midi(case);
                song = file;
                what = w.into();
            }
            _ => {
                let kind = case.rng.below(faults::BAD_SONGS);
                let (file, w) = faults::bad_song(case, kind);
                song = file;
                what = w.into();
            }
        }
    }
    case.write("m.json", man.to_string().as_bytes());
    // the ROM may lie behind a link
    let rom_link = case.rng.chance(1, 4);
    let rom_file = if rom_link { "work/the rom itself" } else { "work/real rom.smc" };
    case.write(rom_file, &rom);
    let relink = |case: &Case, to: &str, at: &str, abs: bool| -> Res {
        let to = if abs { case.path(to) } else { Path::new("..").join(to) };
        std::os::unix::fs::symlink(to, case.path(at)).map_err(|e| Fail::Inconclusive(e.to_string()))
    };
    if rom_link {
        let abs = case.rng.chance(1, 2);
        relink(case, rom_file, "work/real rom.smc", abs)?;
    }
    // the output
    let exports = cmd == "midi2json" || cmd == "gen_fake_rom";
    let (out, link_target) = if exports {
        let out = *case.rng.pick(&["work/out", "out dir/o.json", "work/real rom.dummy", "in/song"]);
        (out, "work/through a link")
    } else {
        ("work/real rom.smc", rom_file)
    };
    let mut old = "none";
    if exports {
        match case.rng.below(5) {
            0 => {}
            1 => {
                old = "shorter";
                let k = case.rng.us(0, 60);
                case.write(out, &vec![0x5a; k]);
            }
            2 => {
                old = "longer";
                let k = 0x180000 + case.rng.us(0, 5000);
                case.write(out, &vec![0x7b; k]);
            }
            3 => {
                old = "of the same length";
                case.write(out, &vec![0xff; s.rom.data.len()]);
            }
            _ => {
                old = "behind a link";
                case.write(link_target, &vec![0x20; 70_000]);
                let abs = case.rng.chance(1, 2);
                relink(case, link_target, out, abs)?;
            }
        }
    } else if rom_link {
        old = "behind a link";
    }
    let modes = [0o644u32, 0o600, 0o640, 0o664, 0o666, 0o755, 0o444, 0o606];
    for f in [rom_file, out, &song, "m.json"] {
        if case.path(f).is_file() && case.rng.chance(2, 3) {
            let m = *case.rng.pick(&modes);
            std::fs::set_permissions(case.path(f), std::os::unix::fs::PermissionsExt::from_mode(m))
                .map_err(|e| Fail::Inconclusive(e.to_string()))?;
        }
    }
    // bystanders
    for f in ["m.json", "work/real rom.smc", &song, out, "tmp/midi2spc", "home/.midi2spc"] {
        for n in neighbours(f) {
            if case.rng.chance(1, 4) && std::fs::symlink_metadata(case.path(&n)).is_err() {
                let len = case.rng.us(0, 300);
                let fill = case.rng.byte(0, 255);
                case.write(&n, &vec![fill; len]);
            }
        }
    }
    let flags: Vec<&str> = (*case.rng.pick(&[&[][..], &["-s"][..], &["-v"][..], &["-s", "-v"][..]])).to_vec();
    // named from here or there
    let dir = case.dir.clone();
    let abs = |f: &str| dir.join(f).to_str().unwrap().to_string();
    let from_work = case.rng.clone().chance(1, 2);
    let name = |f: &str| if from_work { format!("../{}", f) } else { abs(f) };
    let (man_n, rom_n, song_n, out_n) = (name("m.json"), name("work/real rom.smc"), name(&song), name(out));
    let mut args = flags.clone();
    args.push(cmd);
    match cmd {
        "build_rom" => args.extend(&[man_n.as_str(), &rom_n]),
        "all_overworld" | "file_select" => args.extend(&[song_n.as_str(), &rom_n]),
        "midi2json" => args.extend(&[song_n.as_str(), &out_n]),
        "gen_fake_rom" => args.extend(&[rom_n.as_str(), &out_n]),
        _ => args.push(&song_n),
    }
    let work = case.path("work");
    let env = vec![
        ("HOME".to_string(), abs("home")),
        ("TMPDIR".to_string(), abs("tmp")),
        ("XDG_CACHE_HOME".to_string(), abs("home")),
    ];
    let before = snapshot(&case.dir);
    let run = case.run_opts(&args, Opts { cwd: Some(&work), env: env.clone(), ..Opts::default() });
    let after = snapshot(&case.dir);
    let ch = changes(&before, &after);
    let desc = format!("{} ({}, output before: {})", case.last_cmd, what, old);
    case.sig(hash_bytes(format!("{}{}{}{:?}{}", cmd, what, old, flags, out).as_bytes()));
    case.sig(hash_bytes(&bytes));
    case.count(&format!("cmd_{}", cmd), 1);
    case.count("files_watched", before.len() as u64);
    if run.signal == Some(14) || run.signal == Some(24) {
        return Err(Fail::Inconclusive(format!("{}: timed out", desc)));
    }
    // a dump of a broken file may report it either way
    if cmd != "dump_midi" && run.ok() == fails {
        viol!("{}: {}", desc, run.brief());
    }
    if run.code.is_none() {
        viol!("{}: {}", desc, run.brief());
    }
    if cmd == "dump_midi" || !run.ok() {
        if let Some((f, how)) = ch.first() {
            viol!("{}: {} was {} although {}", desc, f, how, if run.ok() { "a dump writes nothing" } else { "the command failed" });
        }
        case.count(if cmd == "dump_midi" { "dumps" } else { "failures_without_a_trace" }, 1);
        return Ok(());
    }
    // the file that may change
    let target = if old == "behind a link" { link_target } else { out };
    for (f, how) in &ch {
        if f != target {
            viol!("{}: {} was {}", desc, f, how);
        }
        if *how == "removed" {
            viol!("{}: {} was removed", desc, f);
        }
    }
    if !after.contains_key(target) {
        viol!("{}: success reported without the output", desc);
    }
    if let (Some(Entry::File { mode: a, .. }), Some(Entry::File { mode: b, .. })) = (before.get(target), after.get(target)) {
        if a != b {
            viol!("{}: {} has mode {:o} instead of {:o}", desc, target, b, a);
        }
    }
    if exports {
        // the same into a new file
        let mut again = flags.clone();
        again.push(cmd);
        let fresh = abs("fresh output");
        again.extend(&[if cmd == "midi2json" { song_n.as_str() } else { &rom_n }, &fresh]);
        let run = case.run_opts(&again, Opts { cwd: Some(&work), env, ..Opts::default() });
        case.judge_ok(&run)?;
        let (a, b) = (case.read(target), case.read("fresh output"));
        if a != b {
            let at = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]).unwrap_or(a.len().min(b.len()));
            viol!("{}: the output differs from one written to a new file from {:x} on ({} and {} bytes)", desc, at, a.len(), b.len());
        }
        case.count("outputs_replaced", (old != "none") as u64);
    } else {
        case.count("builds", 1);
    }
    case.sample = Some(json!({"case": case.idx, "command": case.last_cmd, "input": what, "old_output": old, "files_watched": before.len(), "changed": ch.iter().map(|c| c.0.clone()).collect::<Vec<_>>()}));
    Ok(())
}
