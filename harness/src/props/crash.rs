//! C23: interrupted commands.
use super::faults::{read_log, setup, shim_env};
use crate::engine::*;
use crate::gen::*;
use crate::rng::hash_bytes;
use crate::smf::*;
use serde_json::json;

/// Runs a command that is ended, or whose writing fails, at some point; whether it was.
fn interrupt(case: &mut Case, args: &[&str], calls: &[u64; 3], len: u64, log: &str) -> Result<(bool, String), Fail> {
    let [nr, nw, nout] = *calls;
    let near_end = |case: &mut Case, n: u64| {
        let n = n.max(1);
        match case.rng.below(5) {
            0 => n,
            1 => n - case.rng.below(n.min(4)),
            2 => case.rng.range(1, n.min(3)),
            _ => case.rng.range(1, n),
        }
    };
    let (rule, kind) = match case.rng.weighted(&[3, 4, 2, 2, 2, 2]) {
        0 => (format!("w,f,{},kill,0", near_end(case, nw)), "killed_before_a_write"),
        1 => {
            let k = match case.rng.below(4) {
                0 => case.rng.range(1, 64.min(len.max(1))),
                1 => len.saturating_sub(case.rng.range(1, 64)).max(1),
                _ => case.rng.range(1, len.max(1)),
            };
            let n = near_end(case, nw);
            (format!("w,f,{},short,{};w,f,{},kill,0", n, k, n + 1), "killed_within_a_write")
        }
        2 => {
            let k = case.rng.range(1, len.max(1));
            let e = *case.rng.pick(&[28u32, 5, 27]);
            let n = near_end(case, nw);
            (format!("w,f,{},short,{};{}", n, k, (1..6).map(|i| format!("w,f,{},err,{}", n + i, e)).collect::<Vec<_>>().join(";")), "full_within_a_write")
        }
        3 => (format!("r,f,{},kill,0", near_end(case, nr)), "killed_before_a_read"),
        4 => (format!("w,1,{},kill,0", near_end(case, nout)), "killed_while_reporting"),
        _ => (format!("w,f,0,short,{};w,f,{},kill,0", (len / 5).max(1), case.rng.range(2, 6)), "killed_between_short_writes"),
    };
    let e = shim_env(case, &rule, log);
    let run = case.run_opts(args, Opts { env: e, ..Opts::default() });
    if run.signal == Some(14) || run.signal == Some(24) {
        return Err(Fail::Inconclusive(format!("{}: timed out", rule)));
    }
    let failed_write = read_log(case, log).iter().any(|l| l.4 == 'e');
    let hit = run.signal == Some(9) || failed_write;
    if hit {
        case.count("interruptions", 1);
        case.count(kind, 1);
        case.sig(hash_bytes(format!("{}{}", args.join(" "), rule).as_bytes()));
    } else if !run.ok() {
        viol!("{} fails although nothing happened to it ({}): {}", case.last_cmd, rule, run.brief());
    }
    Ok((hit, rule))
}

pub fn c23(case: &mut Case) -> Res {
    let s = setup(case)?;
    case.write("m.json", s.man.to_string().as_bytes());
    let st = Style { max_notes: *case.rng.pick(&[5usize, 25, 60]), long: false, ..Style::all() };
    let p = loop {
        let p = gen_piece(&mut case.rng, &st);
        if p.guaranteed {
            break p;
        }
    };
    case.write("song.mid", &p.smf.to_bytes(WriteOpts::default()));
    case.write("real.smc", &s.rom.data);
    let cmd = *case.rng.pick(&["build_rom", "build_rom", "build_rom", "all_overworld", "file_select", "midi2json", "gen_fake_rom"]);
    let opts: &[&str] = *case.rng.pick(&[&[][..], &["-v"], &["-s"]]);
    let input = match cmd {
        "build_rom" => "m.json",
        "gen_fake_rom" => "real.smc",
        _ => "song.mid",
    };
    let builds = cmd != "midi2json" && cmd != "gen_fake_rom";
    let args = |out: &'static str| -> Vec<&str> { opts.iter().cloned().chain([cmd, input, out]).collect() };
    if builds {
        case.write("ref.out", &s.rom.data);
    }
    let e = shim_env(case, "", "log0");
    let run = case.run_opts(&args("ref.out"), Opts { env: e, ..Opts::default() });
    if run.clean_failure() && cmd == "all_overworld" {
        case.count("piece_does_not_fit", 1);
        return Ok(());
    }
    case.judge_ok(&run)?;
    let want = case.read("ref.out");
    let log = read_log(case, "log0");
    let count = |op, cl| log.iter().filter(|l| l.0 == op && l.1 == cl).count() as u64;
    let calls = [count('r', 'f'), count('w', 'f'), count('w', '1')];
    if calls[0] == 0 || calls[1] == 0 {
        return Err(Fail::Inconclusive(format!("the shim saw {:?} calls", calls)));
    }
    if builds && want.len() != s.rom.data.len() {
        viol!("the build changed the length of the ROM");
    }
    case.count(&format!("cmd_{}", cmd), 1);
    for j in 0..3 {
        if builds {
            case.write("r.out", &s.rom.data);
        } else if case.rng.chance(1, 2) {
            let n = if case.rng.chance(1, 4) { 0 } else { case.rng.us(0, want.len() + 300) };
            case.write("r.out", &vec![0x55; n]);
        } else {
            let _ = std::fs::remove_file(case.path("r.out"));
        }
        // interrupted once or several times in a row
        let mut story = vec![];
        for k in 0..*case.rng.pick(&[1usize, 1, 2, 4]) {
            let (hit, rule) = interrupt(case, &args("r.out"), &calls, want.len() as u64, &format!("log{}-{}", j, k))?;
            story.push(format!("{}{}", rule, if hit { "" } else { " (not reached)" }));
            if !builds {
                continue;
            }
            let left = case.read("r.out");
            if left.len() != s.rom.data.len() {
                viol!("{} interrupted ({}): the ROM has {} bytes instead of {}", case.last_cmd, story.join(", "), left.len(), s.rom.data.len());
            }
            if let Some(at) = (0..left.len()).find(|&i| left[i] != want[i] && left[i] != s.rom.data[i]) {
                viol!(
                    "{} interrupted ({}): byte {:x} is {:02x}, neither the old one ({:02x}) nor the new one ({:02x})",
                    case.last_cmd, story.join(", "), at, left[at], s.rom.data[at], want[at]
                );
            }
            case.count("bytes_compared", left.len() as u64);
            if left != want && left != s.rom.data {
                case.count("half_written_roms", 1);
            } else if left == s.rom.data {
                case.count("untouched_roms", 1);
            }
        }
        let run = case.run(&args("r.out"));
        if !run.ok() {
            viol!("{} can't be repeated after an interruption ({}): {}", case.last_cmd, story.join(", "), run.brief());
        }
        let after = case.read("r.out");
        if after != want {
            let at = (0..want.len().min(after.len())).find(|&i| want[i] != after[i]);
            viol!("{} repeated after an interruption ({}) differs from an undisturbed one at {:x?} ({} bytes, {} expected)", case.last_cmd, story.join(", "), at, after.len(), want.len());
        }
        case.count("repeated", 1);
    }
    for (f, b) in [("real.smc", s.rom.data.clone()), ("m.json", s.man.to_string().into_bytes()), ("song.mid", p.smf.to_bytes(WriteOpts::default()))] {
        if case.read(f) != b {
            viol!("{} interrupted: the input {} changed", cmd, f);
        }
    }
    case.sample = Some(json!({"case": case.idx, "command": cmd, "reads": calls[0], "writes": calls[1], "display_writes": calls[2]}));
    Ok(())
}
