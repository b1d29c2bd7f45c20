//! Observation helpers shared by the properties.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::nspc::*;
use crate::rng::hash_bytes;
use crate::rom::*;
use crate::smf::*;
use crate::song::Song;
use crate::{incon, viol};
use serde_json::json;

pub struct Observed {
    pub slot: SlotSong,
    pub perf: Performance,
}

/// Puts one piece into the File Select slot of a fresh image and decodes it.
pub fn observe_midi(case: &mut Case, midi: &[u8], optimize: bool, name: &str) -> Result<Observed, Fail> {
    let rom = RomCfg::single(0x2f00, 0xa000).build();
    let m = case.write(&format!("{}.mid", name), midi);
    let r = case.write(&format!("{}.smc", name), &rom.data);
    let mut args = vec![];
    if !optimize {
        args.push("-s");
    }
    let (ms, rs) = (m.to_str().unwrap().to_string(), r.to_str().unwrap().to_string());
    args.extend(&["file_select", &ms, &rs]);
    let run = case.run(&args);
    match why_rejected(case, &ms, &run) {
        Some(Why::Space) => incon!("piece too large for the test ROM"),
        Some(Why::Piece) if tag_across_buffer(midi) => {
            // (a known finding of C09)
            case.count("tag_across_buffer", 1);
            incon!("piece too large for the MIDI reader's buffer")
        }
        Some(Why::Piece) => return Err(Fail::Rejected(run.brief())),
        None => {}
    }
    case.judge_ok(&run)?;
    let out = Rom { data: case.read(&format!("{}.smc", name)), ptrs: rom.ptrs };
    decode_file_select(&out)
}

pub enum Why {
    /// the piece can't be converted at all
    Piece,
    /// it may be too large for a ROM area
    Space,
}

/// Explains an orderly failure of a command that converts this file and puts it into a large area
/// of a ROM, without looking at messages: None when there is no explanation.
pub fn why_rejected(case: &mut Case, file: &str, run: &Run) -> Option<Why> {
    if !run.clean_failure() {
        return None;
    }
    let song = if file.ends_with(".mid") {
        let r = case.run(&["-s", "midi2json", file, "why.json"]);
        if r.clean_failure() {
            return Some(Why::Piece);
        }
        if !r.ok() {
            return None;
        }
        Song::from_json(&case.read("why.json")).ok()?
    } else {
        Song::from_json(&case.read(file)).ok()?
    };
    if song.most_bytes() > 0x9000 {
        Some(Why::Space)
    } else {
        None
    }
}

pub fn decode_file_select(out: &Rom) -> Result<Observed, Fail> {
    let bi = out.bank(0).map_err(v)?;
    let slot = out.decode_slot(&bi, 0, 10).map_err(|e| v(format!("ROM does not decode: {}", e)))?;
    let perf = perform(&slot.song).map_err(|e| v(format!("song does not play: {}", e)))?;
    Ok(Observed { slot, perf })
}

pub fn onset_ok(m: &Model, n: &Note, h: &Heard) -> bool {
    h.start >= m.floor(n.on) && h.start <= m.ceil(n.on)
}

/// Is the heard length explained by the note's end?
pub fn length_ok(m: &Model, n: &Note, h: &Heard) -> Result<(), String> {
    let off = match n.off {
        Some(o) => o,
        None => m.end,
    };
    let (e0, e1) = (m.floor(off), m.ceil(off));
    let mut why = String::new();
    for e in [e0, e1] {
        if e <= h.start {
            continue;
        }
        let l = e - h.start;
        if h.len == l {
            return Ok(());
        }
        let q = h.q.unwrap_or(7) as u64;
        if h.ties == 0 && h.slid.is_none() && h.len > l {
            if q < 7 && 8 * l == h.len * q {
                return Ok(());
            }
            if q == 7 && 8 * (l + 1) >= 7 * h.len {
                return Ok(());
            }
        }
        why = format!("length {} expected, slot {} articulation {}", l, h.len, q);
    }
    if why.is_empty() && !m.required(n) {
        return Ok(());
    }
    Err(why)
}

/// Finds a pairing of heard and expected notes in which every heard note is explained and every
/// required note is heard. `compat` decides whether a heard note can be an expected one.
pub fn pair_notes(
    m: &Model,
    perf: &Performance,
    compat: &dyn Fn(&Note, &Heard) -> bool,
) -> Result<Vec<usize>, String> {
    let nh = perf.notes.len();
    let ne = m.notes.len();
    // candidates by pitch and onset window
    let mut by_pitch: std::collections::HashMap<u8, Vec<usize>> = std::collections::HashMap::new();
    let mut order: Vec<usize> = (0..ne).collect();
    order.sort_by_key(|&i| m.notes[i].on);
    for &i in &order {
        by_pitch.entry(m.notes[i].pitch_byte()).or_insert_with(Vec::new).push(i);
    }
    let mut cand_h: Vec<Vec<usize>> = vec![Vec::new(); nh];
    let mut cand_e: Vec<Vec<usize>> = vec![Vec::new(); ne];
    for (hi, h) in perf.notes.iter().enumerate() {
        if let Some(list) = by_pitch.get(&h.pitch) {
            let lo = list.partition_point(|&i| m.ceil(m.notes[i].on) < h.start);
            for &ei in &list[lo..] {
                let n = &m.notes[ei];
                if m.floor(n.on) > h.start {
                    break;
                }
                if compat(n, h) {
                    cand_h[hi].push(ei);
                    cand_e[ei].push(hi);
                }
            }
        }
    }
    fn augment(u: usize, cand: &Vec<Vec<usize>>, mate: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for &w in &cand[u] {
            if seen[w] {
                continue;
            }
            seen[w] = true;
            if mate[w].is_none() || augment(mate[w].unwrap(), cand, mate, seen) {
                mate[w] = Some(u);
                return true;
            }
        }
        false
    }
    // every heard note explained
    let mut mate_e: Vec<Option<usize>> = vec![None; ne];
    for hi in 0..nh {
        let mut seen = vec![false; ne];
        if !augment(hi, &cand_h, &mut mate_e, &mut seen) {
            return Err(describe_heard(m, &perf.notes[hi]));
        }
    }
    // every required note heard
    let mut mate_h: Vec<Option<usize>> = vec![None; nh];
    for &ei in &order {
        if !m.required(&m.notes[ei]) {
            continue;
        }
        let mut seen = vec![false; nh];
        if !augment(ei, &cand_e, &mut mate_h, &mut seen) {
            return Err(describe_note(m, perf, &m.notes[ei]));
        }
    }
    let mut res = vec![usize::MAX; nh];
    for (ei, mh) in mate_e.iter().enumerate() {
        if let Some(hi) = mh {
            res[*hi] = ei;
        }
    }
    Ok(res)
}

fn describe_heard(m: &Model, h: &Heard) -> String {
    let near: Vec<String> = m
        .notes
        .iter()
        .filter(|n| m.ceil(n.on) + 1 >= h.start && m.floor(n.on) <= h.start + 1)
        .take(8)
        .map(|n| note_str(m, n))
        .collect();
    format!("no MIDI note explains the played note {:?}; MIDI notes starting there: {:?}", h, near)
}

pub fn note_str(m: &Model, n: &Note) -> String {
    format!(
        "ch {} note {} (byte {:02x}) vel {} steps {:.2}..{} prog {:?} vol {} porta {}",
        n.ch,
        n.note,
        n.pitch_byte(),
        n.vel,
        n.on as f64 * 24.0 / m.tpb as f64,
        n.off.map_or("?".to_string(), |o| format!("{:.2}", o as f64 * 24.0 / m.tpb as f64)),
        n.prog,
        n.vol,
        n.porta
    )
}

fn describe_note(m: &Model, perf: &Performance, n: &Note) -> String {
    let near: Vec<String> = perf
        .notes
        .iter()
        .filter(|h| m.ceil(n.on) + 1 >= h.start && m.floor(n.on) <= h.start + 1)
        .take(8)
        .map(|h| format!("{:?}", h))
        .collect();
    format!("MIDI note not heard as required: {}; played notes starting there: {:?}", note_str(m, n), near)
}

/// Standard pairing: pitch and onset only.
pub fn pair_basic(m: &Model, perf: &Performance) -> Result<Vec<usize>, String> {
    pair_notes(m, perf, &|n, h| onset_ok(m, n, h))
}

/// Turns a generated piece into file bytes and records what was generated.
pub fn piece_bytes(case: &mut Case, p: &Piece) -> Vec<u8> {
    let o = Smf::random_opts(&mut case.rng);
    let b = p.smf.to_bytes(o);
    case.sig(hash_bytes(&b));
    if case.sample.is_none() {
        let evs: usize = p.smf.tracks.iter().map(|t| t.len()).sum();
        case.sample = Some(json!({"case": case.idx, "piece": p.desc, "midi_events": evs, "bytes": b.len(), "tracks": p.smf.tracks.len()}));
    }
    case.count("midi_events", p.smf.tracks.iter().map(|t| t.len() as u64).sum());
    b
}

/// Observes a generated piece; a piece that need not be accepted may be rejected for voices.
pub fn observe_piece(case: &mut Case, p: &Piece, optimize: bool) -> Result<Option<Observed>, Fail> {
    let b = piece_bytes(case, p);
    match observe_midi(case, &b, optimize, "song") {
        Ok(o) => {
            case.count("notes_heard", o.perf.notes.len() as u64);
            case.count("driver_commands", o.perf.commands);
            Ok(Some(o))
        }
        Err(Fail::Rejected(msg)) => {
            if p.guaranteed {
                viol!("valid piece rejected: {}; {}", msg, p.desc);
            }
            case.count("rejected_for_voices", 1);
            Ok(None)
        }
        Err(Fail::Inconclusive(msg)) if msg.contains("too large") => {
            case.count("too_large", 1);
            Ok(None)
        }
        Err(e) => Err(e),
    }
}


#[allow(dead_code)]
pub fn require(cond: bool, msg: String) -> Res {
    if !cond {
        viol!("{}", msg);
    }
    Ok(())
}
