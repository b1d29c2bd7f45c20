//! C22: what a dump of a MIDI file shows.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::hash_bytes;
use crate::smf::*;
use std::process::Stdio;

/// A value as Rust's `{:#?}` prints it.
#[derive(Debug, Clone)]
enum Tree {
    Leaf(String),
    /// name, fields (with their names, if they have any)
    Node(String, Vec<(String, Tree)>),
    List(Vec<Tree>),
}

fn tokens(s: &str) -> Result<Vec<String>, String> {
    let mut out = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if b"{}[]():,".contains(&c) {
            if c == b':' && b.get(i + 1) == Some(&b':') {
                i += 2;
                continue;
            }
            out.push((c as char).to_string());
            i += 1;
        } else if c == b'"' {
            let st = i;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
            out.push(s.get(st..i).ok_or("string not closed")?.to_string());
        } else {
            let st = i;
            while i < b.len() && !b[i].is_ascii_whitespace() && !b"{}[]():,\"".contains(&b[i]) {
                i += 1;
            }
            out.push(s[st..i].to_string());
        }
    }
    Ok(out)
}

fn value(t: &[String], p: &mut usize) -> Result<Tree, String> {
    fn items(t: &[String], p: &mut usize, close: &str) -> Result<Vec<(String, Tree)>, String> {
        let mut out = Vec::new();
        loop {
            if *p >= t.len() {
                return Err("dump ends early".into());
            }
            if t[*p] == close {
                *p += 1;
                return Ok(out);
            }
            let first = value(t, p)?;
            let item = if t.get(*p).map_or(false, |x| x == ":") {
                *p += 1;
                let name = match first {
                    Tree::Leaf(n) => n,
                    _ => String::new(),
                };
                (name, value(t, p)?)
            } else {
                (String::new(), first)
            };
            out.push(item);
            if t.get(*p).map_or(false, |x| x == ",") {
                *p += 1;
            }
        }
    }
    let tok = t.get(*p).ok_or("dump ends early")?.clone();
    *p += 1;
    Ok(match tok.as_str() {
        "[" => Tree::List(items(t, p, "]")?.into_iter().map(|x| x.1).collect()),
        "(" => Tree::Node("()".into(), items(t, p, ")")?),
        "{" => Tree::Node("{}".into(), items(t, p, "}")?),
        ")" | "]" | "}" | ":" | "," => return Err(format!("unexpected {} in the dump", tok)),
        _ => match t.get(*p).map(|s| s.as_str()) {
            Some("{") => {
                *p += 1;
                Tree::Node(tok, items(t, p, "}")?)
            }
            Some("(") => {
                *p += 1;
                Tree::Node(tok, items(t, p, ")")?)
            }
            _ => Tree::Leaf(tok),
        },
    })
}

/// one event as the dump names it: kind, then its values
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Shown {
    delta: u64,
    what: String,
    vals: Vec<i64>,
}

const KINDS: [&str; 3] = ["MetaEvent", "MidiEvent", "SysExEvent"];

fn shown(t: &Tree) -> Option<Shown> {
    let Tree::Node(name, fields) = t else { return None };
    if !KINDS.contains(&name.as_str()) {
        return None;
    }
    let num = |t: &Tree| -> Option<i64> {
        match t {
            Tree::Leaf(s) => s.parse().ok(),
            _ => None,
        }
    };
    let field = |f: &str| fields.iter().find(|x| x.0 == f).map(|x| &x.1);
    let delta = num(field("delta_time")?)? as u64;
    let mut vals: Vec<i64> = vec![];
    let what = match field("event")? {
        Tree::Leaf(s) => s.clone(),
        Tree::Node(s, fs) => {
            for f in fs {
                vals.push(num(&f.1)?);
            }
            s.clone()
        }
        _ => return None,
    };
    if let Some(Tree::List(l)) = field("data") {
        for x in l {
            vals.push(num(x)?);
        }
    }
    if what == "PitchBendChange" {
        // (the reader library reduces the amount)
        vals.truncate(1);
    }
    Some(Shown { delta, what, vals })
}

fn expected(k: &K, o: WriteOpts) -> (String, Vec<i64>) {
    let s = |x: &str| x.to_string();
    match *k {
        K::On { ch, note, vel } => (s("NoteOn"), vec![ch as i64, note as i64, vel as i64]),
        K::Off { ch, note, .. } if o.off_as_on0 => (s("NoteOn"), vec![ch as i64, note as i64, 0]),
        K::Off { ch, note, vel } => (s("NoteOff"), vec![ch as i64, note as i64, vel as i64]),
        K::Cc { ch, ctl, val } => (s("ControlChange"), vec![ch as i64, ctl as i64, val as i64]),
        K::Pc { ch, prog } => (s("ProgramChange"), vec![ch as i64, prog as i64]),
        K::Bend { ch, .. } => (s("PitchBendChange"), vec![ch as i64]),
        K::Pressure { ch, val } => (s("ChannelPressure"), vec![ch as i64, val as i64]),
        K::PolyP { ch, note, val } => (s("PolyphonicKeyPressure"), vec![ch as i64, note as i64, val as i64]),
        K::Tempo(us) => (s("SetTempo"), vec![(us >> 16) as i64, (us >> 8 & 0xff) as i64, (us & 0xff) as i64]),
        K::Meta(ty, ref d) => {
            let name = match ty {
                0 => "SequenceNumber",
                1 => "TextEvent",
                2 => "CopyrightNotice",
                3 => "SequenceOrTrackName",
                4 => "InstrumentName",
                5 => "Lyric",
                6 => "Marker",
                7 => "CuePoint",
                0x20 => "MIDIChannelPrefix",
                0x51 => "SetTempo",
                0x54 => "SMTPEOffset",
                0x58 => "TimeSignature",
                0x59 => "KeySignature",
                0x7f => "SequencerSpecificMetaEvent",
                _ => "Unknown",
            };
            let mut vals: Vec<i64> = if name == "Unknown" { vec![ty as i64] } else { vec![] };
            vals.extend(d.iter().map(|&x| x as i64));
            (s(name), vals)
        }
        K::SysEx(ty, ref d) => (s(if ty == 0xf0 { "F0" } else { "F7" }), d.iter().map(|&x| x as i64).collect()),
    }
}

/// the events of every track as they should be shown, and those of every channel with their times
fn expectation(s: &Smf, o: WriteOpts) -> (Vec<Vec<Shown>>, Vec<(u64, Shown)>) {
    let mut tracks = vec![];
    let mut timed = vec![];
    for (ti, t) in s.tracks.iter().enumerate() {
        let mut out = vec![];
        let mut last = 0;
        for e in t {
            while e.tick - last >= 1 << 28 {
                out.push(Shown { delta: (1 << 28) - 1, what: "TextEvent".into(), vals: vec![] });
                last += (1 << 28) - 1;
            }
            let (what, vals) = expected(&e.k, o);
            let sh = Shown { delta: e.tick - last, what, vals };
            timed.push((e.tick, Shown { delta: 0, ..sh.clone() }));
            out.push(sh);
            last = e.tick;
        }
        out.push(Shown { delta: s.eot_delta.get(ti).cloned().unwrap_or(0), what: "EndOfTrack".into(), vals: vec![] });
        tracks.push(out);
    }
    (tracks, timed)
}

/// a list of events with times
fn timed_list(t: &Tree) -> Option<Vec<(u64, Shown)>> {
    let Tree::List(l) = t else { return None };
    let mut out = vec![];
    for x in l {
        let Tree::Node(_, f) = x else { return None };
        if f.len() != 2 {
            return None;
        }
        let (a, b) = (shown(&f[0].1), shown(&f[1].1));
        let (e, n) = match (a, b) {
            (Some(e), None) => (e, &f[1].1),
            (None, Some(e)) => (e, &f[0].1),
            _ => return None,
        };
        let Tree::Leaf(n) = n else { return None };
        out.push((n.parse().ok()?, Shown { delta: 0, ..e }));
    }
    Some(out)
}

struct Dump {
    scalars: Vec<i64>,
    tracks: Vec<Vec<Shown>>,
    channels: Option<Vec<Vec<(u64, Shown)>>>,
    voices: Option<Vec<Vec<(u64, Shown)>>>,
    before: String,
    stderr: String,
    text: String,
}

fn parse(out: &str) -> Result<Dump, String> {
    let mut at = 0;
    let mut start = None;
    for l in out.split_inclusive('\n') {
        let s = l.trim_end();
        if let Some(n) = s.strip_suffix(" {") {
            if !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '_') {
                start = Some(at);
                break;
            }
        }
        at += l.len();
    }
    let start = start.ok_or("there is no dump in the output")?;
    let text = out[start..].to_string();
    let t = tokens(&text)?;
    let mut p = 0;
    let root = value(&t, &mut p)?;
    if p != t.len() {
        return Err("the output goes on after the dump".into());
    }
    let Tree::Node(_, fields) = root else { return Err("no dump".into()) };
    let mut d = Dump { scalars: vec![], tracks: vec![], channels: None, voices: None, before: out[..start].to_string(), stderr: String::new(), text };
    fn lists(t: &Tree, out: &mut Vec<Vec<Shown>>) {
        match t {
            Tree::List(l) => {
                let ev: Vec<Option<Shown>> = l.iter().map(shown).collect();
                if !ev.is_empty() && ev.iter().all(|e| e.is_some()) {
                    out.push(ev.into_iter().flatten().collect());
                } else {
                    l.iter().for_each(|x| lists(x, out));
                }
            }
            Tree::Node(n, f) if n != "()" => f.iter().for_each(|x| lists(&x.1, out)),
            _ => {}
        }
    }
    for (_, f) in &fields {
        if let Tree::Leaf(s) = f {
            d.scalars.extend(s.parse::<i64>().ok());
        }
        lists(f, &mut d.tracks);
        // groups of lists of events with times: 16 channels, 8 voices
        if let Tree::List(l) = f {
            let mut group = vec![];
            let mut any = false;
            for x in l {
                let Tree::Node(_, inner) = x else { break };
                // (a node's other lists may be empty)
                let lists: Vec<_> = inner.iter().filter_map(|y| timed_list(&y.1)).collect();
                let Some(timed) = lists.iter().find(|l| !l.is_empty()).or(lists.first()).cloned() else { break };
                any = any || !timed.is_empty();
                group.push(timed);
            }
            if any && group.len() == l.len() {
                match group.len() {
                    16 => d.channels = Some(group),
                    8 => d.voices = Some(group),
                    _ => {}
                }
            }
        }
    }
    Ok(d)
}

/// Runs a dump; for a file that can't be read it may also end with a failure and no dump.
fn dump_broken(case: &mut Case, args: &[&str]) -> Result<(Run, Option<Dump>), Fail> {
    let f = std::fs::File::create(case.path("out.txt")).expect("scratch");
    let r = case.run_opts(args, Opts { stdout: Some(Stdio::from(f)), ..Opts::default() });
    if r.panicked() || r.signal.is_some() {
        case.judge_ok(&r)?;
    }
    let out = String::from_utf8_lossy(&case.read("out.txt")).into_owned();
    match parse(&out) {
        Ok(d) => Ok((r.clone(), Some(Dump { stderr: r.stderr, ..d }))),
        Err(_) if r.clean_failure() => Ok((r, None)),
        Err(e) => viol!("{}: {}", e, r.brief()),
    }
}

fn dump(case: &mut Case, args: &[&str], cwd: Option<&std::path::Path>) -> Result<Dump, Fail> {
    let outp = case.path("out.txt");
    let f = std::fs::File::create(&outp).expect("scratch");
    let r = case.run_opts(args, Opts { stdout: Some(Stdio::from(f)), cwd, ..Opts::default() });
    if r.panicked() || r.signal.is_some() {
        case.judge_ok(&r)?;
    }
    let out = String::from_utf8_lossy(&case.read("out.txt")).into_owned();
    let d = parse(&out).map_err(|e| v(format!("{}: {}", e, r.brief())))?;
    Ok(Dump { stderr: r.stderr, ..d })
}

fn is_start(e: &Shown) -> bool {
    e.what == "NoteOn" && e.vals[2] > 0
}
fn is_end(e: &Shown) -> bool {
    e.what == "NoteOff" || e.what == "NoteOn" && e.vals[2] == 0
}

/// Each channel's list against the file's events: nothing else, nothing missing but notes without
/// length, in the order of time.
fn check_channels(s: &[Vec<(u64, Shown)>], timed: &[(u64, Shown)]) -> Res {
    for (ch, list) in s.iter().enumerate() {
        let mut want: Vec<(u64, Shown)> = timed
            .iter()
            .filter(|x| !KIND_META.contains(&x.1.what.as_str()) && x.1.vals[0] == ch as i64)
            .cloned()
            .collect();
        let mut got: Vec<(u64, Shown)> =
            list.iter().filter(|x| !KIND_META.contains(&x.1.what.as_str())).cloned().collect();
        for w in got.windows(2) {
            if w[0].0 > w[1].0 {
                viol!("channel {}: the event at {} is listed before the one at {}", ch, w[0].0, w[1].0);
            }
        }
        want.sort();
        got.sort();
        let mut missing: Vec<(u64, Shown)> = vec![];
        let mut gi = 0;
        for w in want {
            if gi < got.len() && got[gi] < w {
                viol!("channel {} lists {:?} at {}, which the file does not have there", ch, got[gi].1, got[gi].0);
            }
            if gi < got.len() && got[gi] == w {
                gi += 1;
            } else {
                missing.push(w);
            }
        }
        if gi < got.len() {
            viol!("channel {} lists {:?} at {}, which the file does not have there", ch, got[gi].1, got[gi].0);
        }
        // what is missing: starts and ends of the same note on the same tick
        for m in &missing {
            let same = |f: &dyn Fn(&Shown) -> bool| {
                missing.iter().filter(|x| x.0 == m.0 && f(&x.1) && x.1.vals[1] == m.1.vals[1]).count()
            };
            let note = is_start(&m.1) || is_end(&m.1);
            if !note || same(&is_start) != same(&is_end) {
                viol!("channel {} does not list {:?} at {}", ch, m.1, m.0);
            }
        }
    }
    Ok(())
}

const KIND_META: [&str; 18] = [
    "SequenceNumber", "TextEvent", "CopyrightNotice", "SequenceOrTrackName", "InstrumentName", "Lyric", "Marker",
    "CuePoint", "MIDIChannelPrefix", "EndOfTrack", "SetTempo", "SMTPEOffset", "TimeSignature", "KeySignature",
    "SequencerSpecificMetaEvent", "Unknown", "F0", "F7",
];

/// Every note start of the channels on one voice, and never two notes at once on a voice.
fn check_voices(channels: &[Vec<(u64, Shown)>], voices: &[Vec<(u64, Shown)>]) -> Result<u64, Fail> {
    let mut want: Vec<(u64, i64, i64, i64)> = vec![];
    for l in channels {
        for (t, e) in l.iter().filter(|x| is_start(&x.1)) {
            let snare = e.vals[0] == 9 && (e.vals[1] == 38 || e.vals[1] == 40);
            want.push((*t, e.vals[0], if snare { 68 } else { e.vals[1] }, e.vals[2]));
        }
    }
    let mut got = vec![];
    for (vi, l) in voices.iter().enumerate() {
        let mut on: Option<(i64, i64)> = None;
        // (the end of a snare note may be shown with either number)
        let key = |e: &Shown| {
            let snare = e.vals[0] == 9 && (e.vals[1] == 38 || e.vals[1] == 40);
            (e.vals[0], if snare { 68 } else { e.vals[1] })
        };
        let mut last = 0;
        for (t, e) in l {
            if *t < last {
                viol!("voice {}: the event at {} is listed before the one at {}", vi, last, t);
            }
            last = *t;
            if is_start(e) {
                if let Some(o) = on {
                    viol!("voice {}: note {:?} at {} starts while {:?} sounds", vi, e.vals, t, o);
                }
                on = Some(key(e));
                got.push((*t, e.vals[0], e.vals[1], e.vals[2]));
            } else if is_end(e) && on == Some(key(e)) {
                on = None;
            }
        }
    }
    want.sort();
    got.sort();
    if want != got {
        let a = want.iter().find(|x| !got.contains(x));
        let b = got.iter().find(|x| !want.contains(x));
        viol!("note starts on the voices are not those of the channels: missing {:?}, added {:?}", a, b);
    }
    Ok(got.len() as u64)
}

/// events and orders that pieces don't have
fn oddities(case: &mut Case, s: &mut Smf) {
    let rng = &mut case.rng;
    for _ in 0..rng.us(0, 4) {
        let ti = rng.us(0, s.tracks.len() - 1);
        let t = &mut s.tracks[ti];
        let at = rng.us(0, t.len());
        let tick = if at == t.len() { t.last().map_or(0, |e| e.tick) + rng.below(300) } else { t[at].tick };
        let n = *rng.pick(&[0usize, 1, 2, 5, 127, 128, 129, 300]);
        let data: Vec<u8> = (0..n).map(|_| rng.byte(0, 255)).collect();
        let k = match rng.below(5) {
            0 => K::Meta(*rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0f, 0x20, 0x21, 0x54, 0x58, 0x59, 0x60, 0x7f]), data),
            1 => K::Tempo(gen_tempo(rng)),
            2 => K::SysEx(0xf0, data.into_iter().map(|x| x & 0x7f).chain(Some(0xf7)).collect()),
            3 => K::Cc { ch: rng.byte(0, 15), ctl: rng.byte(0, 127), val: rng.byte(0, 127) },
            _ => {
                let (ch, note) = (rng.byte(0, 15), rng.byte(0, 127));
                let vel = rng.byte(1, 127);
                // a note without length
                t.insert(at, Ev { tick, k: K::Off { ch, note, vel: rng.byte(0, 127) } });
                K::On { ch, note, vel }
            }
        };
        t.insert(at, Ev { tick, k });
    }
    if rng.chance(1, 10) {
        // nine notes at once
        let ti = rng.us(0, s.tracks.len() - 1);
        let tick = s.tracks[ti].last().map_or(0, |e| e.tick);
        for i in 0..9 {
            s.tracks[ti].push(Ev { tick, k: K::On { ch: rng.byte(0, 15), note: 60 + i, vel: 80 } });
        }
        for i in 0..9 {
            let (mut ch, mut on) = (0, 0);
            for e in s.tracks[ti].iter().rev() {
                if let K::On { ch: c, note, .. } = e.k {
                    if note == 60 + i && e.tick == tick {
                        ch = c;
                        on = e.tick;
                        break;
                    }
                }
            }
            let off = on + s.tpb as u64;
            s.tracks[ti].push(Ev { tick: off, k: K::Off { ch, note: 60 + i, vel: 0 } });
        }
    }
    if rng.chance(1, 8) {
        let at = rng.us(0, s.tracks.len());
        s.tracks.insert(at, vec![]);
        let d = rng.below(1000);
        s.eot_delta.insert(at.min(s.eot_delta.len()), d);
    }
    while s.eot_delta.len() < s.tracks.len() {
        s.eot_delta.push(0);
    }
    if rng.chance(1, 3) {
        for e in s.eot_delta.iter_mut() {
            *e = *rng.pick(&[0u64, 1, 127, 128, 129, 0x3fff, 0x4000]);
        }
    }
}

/// Dumps of files that can't be used: what was read is shown, nothing else, and the error is named.
fn broken(case: &mut Case, b: &[u8], tracks: &[Vec<Shown>]) -> Res {
    let mut b = b.to_vec();
    let mut whole = false;
    let what = if case.rng.chance(1, 3) {
        whole = true;
        b[9] = *case.rng.pick(&[0u8, 2, 3, 255]);
        format!("a file of format {}", b[9])
    } else {
        let n = case.rng.us(0, b.len() - 1);
        b.truncate(n);
        format!("a file cut off after {} bytes", n)
    };
    case.write("broken.mid", &b);
    let (r, d) = dump_broken(case, &["dump_midi", "broken.mid"])?;
    case.count("broken_files", 1);
    let Some(d) = d else { return Ok(()) };
    if d.before.is_empty() && d.stderr.is_empty() && r.ok() {
        viol!("the dump of {} names no error", what);
    }
    if whole && d.tracks.len() < tracks.len() {
        viol!("the dump of {} shows {} of {} tracks", what, d.tracks.len(), tracks.len());
    }
    if d.tracks.len() > tracks.len() {
        viol!("the dump of {} shows more tracks than it has", what);
    }
    for (i, (got, want)) in d.tracks.iter().zip(tracks).enumerate() {
        let part = i + 1 == d.tracks.len() && !whole;
        if got.len() > want.len() || got[..] != want[..got.len()] || !part && got.len() != want.len() {
            viol!("the dump of {}: track {} is not as in the file", what, i);
        }
        case.count("events_of_broken_files", got.len() as u64);
    }
    Ok(())
}

/// An output that can't take the dump: the command fails in order; one that takes it in pieces gets
/// all of it.
fn faulty_output(case: &mut Case, name: &str) -> Res {
    use super::faults::{read_log, run_with_output, shim_env, Out};
    let to_file = |case: &mut Case, rule: &str, log: &str, out: &str| {
        let f = std::fs::File::create(case.path(out)).expect("scratch");
        let env = shim_env(case, rule, log);
        case.run_opts(&["dump_midi", name], Opts { env, stdout: Some(Stdio::from(f)), ..Opts::default() })
    };
    let r0 = to_file(case, "", "log0", "whole.txt");
    let whole = case.read("whole.txt");
    let n = read_log(case, "log0").iter().filter(|l| l.0 == 'w' && l.1 == '1').count() as u64;
    if n == 0 {
        incon!("the shim saw no writes");
    }
    let i = case.rng.range(1, n);
    let orderly = |r: &Run, what: &str| -> Res {
        if r.panicked() || r.signal.is_some() {
            viol!("a dump to {} does not end in order: {}", what, r.brief());
        }
        Ok(())
    };
    match case.rng.below(8) {
        0 => {
            let r = run_with_output(case, &["dump_midi", name], &Out::Closed, "log1");
            orderly(&r, "a closed output")?;
            case.count("dumps_to_closed_output", 1);
        }
        k @ 1..=2 => {
            let (o, what) = if k == 1 { (Out::DevFull, "a full device") } else { (Out::Broken, "a broken pipe") };
            let r = run_with_output(case, &["dump_midi", name], &o, "log1");
            orderly(&r, what)?;
            if r.ok() {
                viol!("a dump to {} reports success", what);
            }
            case.count("dumps_to_full_output", 1);
        }
        3..=5 => {
            let e = *case.rng.pick(&[5u32, 28, 32, 11]);
            let rule = match case.rng.below(3) {
                0 => format!("w,1,{},err,{}", i, e),
                1 => format!("w,1,0,err,{}", e),
                _ => format!("w,1,{},short,{};w,1,{},err,{}", i, case.rng.range(1, 40), i + 1, e),
            };
            let r = to_file(case, &rule, "log1", "part.txt");
            let fired = read_log(case, "log1").iter().any(|l| l.4 == 'e');
            let got = case.read("part.txt");
            orderly(&r, &rule)?;
            if fired {
                case.count("dump_write_errors", 1);
                if r.ok() && got != whole {
                    viol!("a dump cut short by '{}' ({} of {} bytes) reports success", rule, got.len(), whole.len());
                }
            }
        }
        6 => {
            let k = case.rng.range(1, 60).max(whole.len() as u64 / 3000);
            let rule = if case.rng.chance(1, 2) {
                format!("w,1,0,short,{}", k)
            } else {
                format!("w,1,{},err,4;w,1,{},short,{}", i, i + 1, k)
            };
            let r = to_file(case, &rule, "log1", "part.txt");
            orderly(&r, &rule)?;
            if r.code != r0.code || case.read("part.txt") != whole {
                viol!("with '{}' the dump is not complete: {} of {} bytes, {}", rule, case.read("part.txt").len(), whole.len(), r.brief());
            }
            case.count("dumps_in_short_writes", 1);
        }
        _ => {
            let o = if case.rng.chance(1, 2) { Out::Slow } else { Out::Pause };
            let slow = whole.len() < 100_000;
            let r = run_with_output(case, &["dump_midi", name], if slow { &o } else { &Out::Pause }, "log1");
            orderly(&r, "a slow reader")?;
            if r.code != r0.code {
                viol!("a slow reader makes the dump end differently: {}", r.brief());
            }
            case.count("dumps_to_slow_reader", 1);
        }
    }
    Ok(())
}

pub fn c22(case: &mut Case) -> Res {
    let sample = if case.rng.chance(1, 40) { super::music::sample_piece(case) } else { None };
    let real = sample.is_some();
    let mut p = match sample {
        Some(p) => p,
        None => {
            let max_notes = *case.rng.pick(&[3usize, 10, 30, 60]);
            let st = Style { porta: case.rng.chance(1, 2), max_notes, odd_ends: true, ..Style::all() };
            gen_piece(&mut case.rng, &st)
        }
    };
    if !real {
        oddities(case, &mut p.smf);
    }
    let o = Smf::random_opts(&mut case.rng);
    let b = p.smf.to_bytes(o);
    if tag_across_buffer(&b) {
        incon!("piece too large for the MIDI reader's buffer");
    }
    case.sig(hash_bytes(&b));
    let name = case.rng.pick(&["song.mid", "Song No 3.MID", "piece", "d/x.mid"]).to_string();
    case.write(&name, &b);
    let d = dump(case, &["dump_midi", &name], None)?;
    let (tracks, timed) = expectation(&p.smf, o);
    if case.sample.is_none() {
        case.sample = Some(serde_json::json!({"case": case.idx, "piece": p.desc, "tracks": tracks.len(), "dump_bytes": d.text.len()}));
    }
    // the tracks
    if d.tracks.len() != tracks.len() {
        viol!("{} tracks shown of {}; {}", d.tracks.len(), tracks.len(), p.desc);
    }
    for (i, (got, want)) in d.tracks.iter().zip(&tracks).enumerate() {
        if got != want {
            let j = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            viol!(
                "track {} event {}: shown as {:?}, the file has {:?} ({} events shown of {}); {}",
                i, j, got.get(j), want.get(j), got.len(), want.len(), p.desc
            );
        }
        case.count("track_events", want.len() as u64);
    }
    case.count("tracks", tracks.len() as u64);
    if !d.scalars.contains(&(p.smf.tpb as i64)) {
        viol!("resolution {} not shown among {:?}", p.smf.tpb, d.scalars);
    }
    // can the piece be converted?
    let conv = case.run(&["-s", "midi2json", &name, "x.json"]);
    if conv.ok() {
        if !d.before.is_empty() {
            viol!("a piece that can be converted has a dump after {:?}", d.before.chars().take(200).collect::<String>());
        }
        if let Some(ch) = &d.channels {
            check_channels(ch, &timed)?;
            case.count("channel_lists", ch.iter().filter(|l| !l.is_empty()).count() as u64);
            if let Some(vo) = &d.voices {
                let n = check_voices(ch, vo)?;
                case.count("voice_notes", n);
            }
        }
    } else if conv.clean_failure() {
        case.count("pieces_not_converted", 1);
        // more than eight notes at once are known before any later stage
        let over = Model::of(&p.smf).max_poly > 8;
        case.count("pieces_of_more_than_eight_notes_at_once", over as u64);
        if over && d.before.is_empty() && d.stderr.is_empty() {
            viol!("the dump does not say that the piece can't be converted; {}", p.desc);
        }
        if !d.before.is_empty() {
            case.count("errors_named", 1);
        }
    }
    if case.rng.chance(1, 4) {
        broken(case, &b, &tracks)?;
    }
    if case.rng.chance(1, 4) {
        faulty_output(case, &name)?;
    }
    // the same dump again, from elsewhere, with other options
    match case.rng.below(5) {
        0 => {
            let d2 = dump(case, &["dump_midi", &name], None)?;
            if d2.text != d.text {
                viol!("two dumps of one file differ; {}", p.desc);
            }
            case.count("repeated", 1);
        }
        1 => {
            let flag = *case.rng.pick(&["-s", "-v", "-sv"]);
            let d2 = dump(case, &[flag, "dump_midi", &name], None)?;
            if d2.text != d.text {
                viol!("the dump with {} differs; {}", flag, p.desc);
            }
            case.count("other_flags", 1);
        }
        2 => {
            let other = case.path("elsewhere");
            std::fs::create_dir_all(&other).expect("scratch");
            let full = case.path(&name).display().to_string();
            let d2 = dump(case, &["dump_midi", &full], Some(&other))?;
            if d2.text != d.text {
                viol!("the dump from another directory differs; {}", p.desc);
            }
            case.count("other_directory", 1);
        }
        3 => {
            let b2 = p.smf.to_bytes(WriteOpts { running_status: !o.running_status, ..o });
            if !tag_across_buffer(&b2) {
                case.write("re.mid", &b2);
                let d2 = dump(case, &["dump_midi", "re.mid"], None)?;
                if d2.text != d.text {
                    viol!("the dump depends on running status; {}", p.desc);
                }
                case.count("other_status_bytes", 1);
            }
        }
        _ => {}
    }
    Ok(())
}
