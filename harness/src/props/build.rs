//! C01, C02, C04, C15, C16, C17: whole ROM builds.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::nspc::*;
use crate::rng::{hash_bytes, Rng};
use crate::rom::*;
use crate::smf::*;
use crate::song::{self, Cmd, GenSong};
use serde_json::{json, Map, Value};

pub const NAMES: [(&str, &[&str]); 3] = [
    (
        "overworld",
        &[
            "Title", "World Map", "Beginning", "Rabbit", "Forest", "Intro", "Town", "Warp", "Dark World",
            "Master Sword", "File Select", "Soldier", "Mountain", "Shop", "Fanfare",
        ],
    ),
    (
        "indoor",
        &[
            "Castle", "Palace", "Cave", "Clear", "Church", "Boss", "Dungeon", "Psychic", "Secret Way", "Rescue",
            "Crystal", "Fountain", "Pyramid", "Kill Agahnim", "Ganon Room", "Last Boss",
        ],
    ),
    ("ending", &["Triforce", "Ending", "Staff"]),
];

pub fn manifest_with<F: FnMut(usize, usize) -> Value>(mut f: F) -> Value {
    let mut root = Map::new();
    for (b, (bname, songs)) in NAMES.iter().enumerate() {
        let mut m = Map::new();
        for (i, s) in songs.iter().enumerate() {
            m.insert(s.to_string(), f(b, i));
        }
        root.insert(bname.to_string(), Value::Object(m));
    }
    Value::Object(root)
}

fn shuffle_keys(rng: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            rng.shuffle(&mut keys);
            let mut m = Map::new();
            for k in keys {
                m.insert(k.clone(), shuffle_keys(rng, &o[k]));
            }
            Value::Object(m)
        }
        x => x.clone(),
    }
}

/// A song of the test set with what it must decode to.
#[derive(Clone)]
pub struct TestSong {
    pub file: String,
    pub song: song::Song,
    pub midi: bool,
}

/// Distinct songs; each starts with a unique pair of commands in its first track.
pub fn make_songs(case: &mut Case, n: usize, max_cmds: usize, with_midi: bool) -> Result<Vec<TestSong>, Fail> {
    let mut out = Vec::new();
    for i in 0..n {
        if with_midi && case.rng.chance(1, 3) {
            let mut st = Style::all();
            st.max_notes = case.rng.us(4, max_cmds.max(8));
            st.long = false;
            let p = gen_piece(&mut case.rng, &st);
            if p.guaranteed {
                let b = piece_bytes(case, &p);
                let f = format!("s{}.mid", i);
                case.write(&f, &b);
                out.push(TestSong { file: f, song: song::Song { part: vec![], tracks: vec![] }, midi: true });
                continue;
            }
        }
        let gs = GenSong {
            max_tracks: 8,
            max_cmds: case.rng.us(1, max_cmds.max(1)),
            loops: case.rng.chance(1, 2),
            all_ops: case.rng.chance(1, 2),
        };
        let mut s = gs.gen(&mut case.rng);
        s.tracks[0].insert(0, Cmd { dur: None, vel: None, sus: None, op: 0xf4, args: vec![i + 1] });
        // now and then a song without any commands in one of its later tracks
        if case.rng.chance(1, 6) && s.part.len() > 1 {
            let t = case.rng.us(1, s.part.len() - 1);
            s.tracks[t].clear();
        }
        match case.rng.below(12) {
            // nothing at all to play
            0 => s = song::Song { part: vec![], tracks: vec![] },
            // part positions in another order than the tracks
            1 | 2 => {
                let mut p = s.part.clone();
                case.rng.shuffle(&mut p);
                s.part = p;
                case.count("songs_with_shuffled_parts", 1);
            }
            // one track at two positions
            3 if s.part.len() > 1 && s.part.len() < 8 => {
                let t = *case.rng.pick(&s.part[1..]);
                s.part.push(t);
                case.count("songs_with_doubled_tracks", 1);
            }
            _ => {}
        }
        if s.part.is_empty() {
            case.count("songs_without_tracks", 1);
        }
        let f = format!("s{}.json", i);
        case.write(&f, &s.to_json());
        case.sig(hash_bytes(&s.to_json()));
        out.push(TestSong { file: f, song: s, midi: false });
    }
    Ok(out)
}

/// Fills in the reference songs of MIDI inputs through the JSON export.
pub fn resolve_midi(case: &mut Case, songs: &mut Vec<TestSong>, optimize: bool) -> Res {
    for i in 0..songs.len() {
        if songs[i].midi {
            let out = format!("{}.ref.json", songs[i].file);
            let f = songs[i].file.clone();
            if optimize {
                case.must(&["midi2json", &f, &out])?;
            } else {
                case.must(&["-s", "midi2json", &f, &out])?;
            }
            songs[i].song =
                song::Song::from_json(&case.read(&out)).map_err(|e| v(format!("exported JSON of {}: {}", f, e)))?;
        }
    }
    Ok(())
}

/// Checks a decoded slot against its song.
pub fn check_slot(s: &SlotSong, want: &song::Song, loops: bool) -> Result<(), String> {
    if s.song.looped != loops {
        return Err(format!("looping {} expected, {} found", loops, s.song.looped));
    }
    for i in 0..8 {
        let exp = want.part.get(i).filter(|&&t| !want.tracks[t].is_empty());
        match (exp, &s.song.tracks[i]) {
            (None, None) => {}
            (Some(_), None) => return Err(format!("track {} missing", i)),
            (None, Some(t)) => return Err(format!("unexpected track {} at {:04x}", i, t.raw.start)),
            (Some(_), Some(t)) => {
                let exp = want.expected_items(i)?;
                song::items_match(&exp, &t.items).map_err(|e| format!("track {}: {}", i, e))?;
            }
        }
    }
    Ok(())
}

fn run_build(case: &mut Case, rom: &Rom, man: &Value, optimize: bool, name: &str) -> (Run, Rom) {
    case.write("manifest.json", man.to_string().as_bytes());
    case.write(name, &rom.data);
    let arg = bank_addrs_arg(rom.ptrs);
    let mut args: Vec<&str> = vec![];
    if !optimize {
        args.push("-s");
    }
    args.extend(&["build_rom", "manifest.json", name]);
    if rom.ptrs != DEFAULT_PTRS || case.rng.chance(1, 4) {
        args.extend(&["--bank_addrs", &arg]);
    }
    let run = case.run(&args);
    let after = Rom { data: case.read(name), ptrs: rom.ptrs };
    (run, after)
}

pub fn is_space(run: &Run) -> bool {
    run.clean_failure()
}

fn assign_slots(case: &mut Case, n: usize) -> (Vec<Vec<usize>>, Vec<Vec<bool>>) {
    let mut a = vec![];
    let mut l = vec![];
    for b in 0..3 {
        a.push((0..SLOTS[b]).map(|_| case.rng.us(0, n - 1)).collect());
        l.push((0..SLOTS[b]).map(|_| case.rng.chance(1, 2)).collect());
    }
    (a, l)
}

fn build_manifest(songs: &[TestSong], a: &Vec<Vec<usize>>, l: &Vec<Vec<bool>>) -> Value {
    manifest_with(|b, i| json!({"input": songs[a[b][i]].file, "loop": l[b][i]}))
}

/// sizes of a song's items: header block first, then every track in order
pub fn item_sizes(case: &mut Case, s: &TestSong, loops: bool, optimize: bool) -> Result<Vec<usize>, Fail> {
    let rom = RomCfg::single(0x2fff, 0xa000).build();
    case.write("none.json", br#"{"parts":[{"tracks":[]}],"tracks":[]}"#);
    let man = manifest_with(|b, i| {
        if (b, i) == (0, 0) {
            json!({"input": s.file, "loop": loops})
        } else {
            json!({"input": "none.json", "loop": false})
        }
    });
    let (run, after) = run_build(case, &rom, &man, optimize, "measure.smc");
    case.judge_ok(&run)?;
    let bi = after.bank(0).map_err(v)?;
    let d = after.decode_slot(&bi, 0, 0).map_err(v)?;
    let mut sizes = vec![if loops { 8 } else { 4 } + 16];
    // tracks and loop bodies in the order they were written in
    let mut items: Vec<(bool, usize, usize)> = vec![];
    for t in d.song.tracks.iter().flatten() {
        items.push((t.raw.start < 0xd000, t.raw.start, t.raw.len));
    }
    for b in &d.song.bodies {
        items.push((b.start < 0xd000, b.start, b.len));
    }
    items.sort();
    items.dedup();
    sizes.extend(items.iter().map(|x| x.2));
    Ok(sizes)
}

/// Where the layout rule puts the items: None = rejected, otherwise whether each item went to the
/// overflow area.
pub fn layout(items: &[Vec<usize>], first: usize, main: usize, over: usize) -> Option<Vec<bool>> {
    let mut off = first;
    let mut len = main;
    let mut in_over = false;
    let mut out = vec![];
    for song in items {
        for &sz in song {
            if off + sz > len {
                if in_over {
                    return None;
                }
                in_over = true;
                off = 0;
                len = over;
                if sz > len {
                    return None;
                }
            }
            out.push(in_over);
            off += sz;
        }
    }
    Some(out)
}

fn verify_all_slots(
    case: &mut Case,
    after: &Rom,
    songs: &[TestSong],
    a: &Vec<Vec<usize>>,
    l: &Vec<Vec<bool>>,
) -> Result<Vec<Vec<SlotSong>>, Fail> {
    let mut all = vec![];
    for b in 0..3 {
        let bi = after.bank(b).map_err(v)?;
        let mut bank_songs = vec![];
        for i in 0..SLOTS[b] {
            let what = format!("{} / {} (slot {})", NAMES[b].0, NAMES[b].1[i], FIRST_SLOT[b] + i);
            let s = after.decode_slot(&bi, b, FIRST_SLOT[b] + i).map_err(|e| v(format!("{}: {}", what, e)))?;
            check_slot(&s, &songs[a[b][i]].song, l[b][i]).map_err(|e| v(format!("{}: {}", what, e)))?;
            case.count("slots_decoded", 1);
            case.count("bytes_decoded", s.pieces.iter().map(|p| p.len as u64).sum());
            case.count("loop_calls", s.song.tracks.iter().flatten().map(|t| t.calls.len() as u64).sum());
            let n_over = s.in_overflow.iter().filter(|&&x| x).count();
            if n_over == s.in_overflow.len() {
                case.count("songs_in_overflow", 1);
            } else if n_over > 0 {
                case.count("songs_split", 1);
                if s.song.tracks.iter().flatten().any(|t| !t.calls.is_empty()) {
                    case.count("split_songs_with_calls", 1);
                }
            }
            bank_songs.push(s);
        }
        let lo = after.table_entry_addr(&bi, FIRST_SLOT[b] + SLOTS[b]);
        let hi = bi.main().hdr + 4 + FIRST_SONG[b] - 0xd000;
        if let Some(p) = (lo..hi).find(|&p| after.data[p] != 0) {
            viol!("{}: unused song-table byte at {:x} is {:02x}", NAMES[b].0, p, after.data[p]);
        }
        all.push(bank_songs);
    }
    Ok(all)
}

/// A ROM whose chunks fit the given songs, with the switch to the overflow area at an interesting place.
fn shaped_rom(
    case: &mut Case,
    songs: &[TestSong],
    a: &Vec<Vec<usize>>,
    l: &Vec<Vec<bool>>,
    optimize: bool,
    tight: bool,
) -> Result<(RomCfg, Vec<Vec<Vec<usize>>>), Fail> {
    let mut cache: std::collections::HashMap<(usize, bool), Vec<usize>> = std::collections::HashMap::new();
    let mut cfg = RomCfg::random(&mut case.rng);
    let mut all_items = vec![];
    for b in 0..3 {
        let mut items = vec![];
        for i in 0..SLOTS[b] {
            let k = (a[b][i], l[b][i]);
            if !cache.contains_key(&k) {
                let s = item_sizes(case, &songs[k.0], k.1, optimize)?;
                cache.insert(k, s);
            }
            items.push(cache[&k].clone());
        }
        let first = FIRST_SONG[b] - 0xd000;
        let flat: Vec<usize> = items.iter().flatten().cloned().collect();
        let total: usize = flat.iter().sum();
        let d = |rng: &mut Rng| -> i64 {
            if tight {
                *rng.pick(&[0i64, 0, 0, -1, -1, 1, 2, -2])
            } else {
                rng.below(12) as i64
            }
        };
        let max_main = 0x2fffusize;
        if case.rng.chance(1, 4) && first + total <= max_main {
            // everything in the main area
            cfg.banks[b].main_len = (first + total) as i64 as usize;
            let x = d(&mut case.rng);
            cfg.banks[b].main_len = ((cfg.banks[b].main_len as i64 + x).max(first as i64 + 24)) as usize;
            cfg.banks[b].over_len = match case.rng.below(5) {
                0 | 1 => case.rng.us(1, 8),
                // the chain ends right after the main area
                2 => 0,
                _ => 0x3000.min(total + 20),
            };
        } else {
            // switch after item k
            let mut cut = case.rng.us(0, flat.len() - 1);
            if tight && case.rng.chance(1, 2) {
                cut = flat.len() - 1 - case.rng.us(0, 3.min(flat.len() - 1));
            }
            while cut > 0 && first + flat[..cut].iter().sum::<usize>() > max_main {
                cut -= 1;
            }
            let base = first + flat[..cut].iter().sum::<usize>();
            let jitter = if case.rng.chance(1, 2) { 0 } else { case.rng.us(0, flat[cut].saturating_sub(1)) };
            let x = d(&mut case.rng);
            let m = (base + jitter) as i64 + if jitter == 0 { x } else { 0 };
            cfg.banks[b].main_len = (m.max(first as i64) as usize).min(max_main);
            // what goes to the overflow area then
            let main = cfg.banks[b].main_len;
            let big = layout(&items, first, main, 1 << 20).unwrap();
            let rest: usize = flat.iter().zip(&big).filter(|x| *x.1).map(|x| *x.0).sum();
            let y = d(&mut case.rng);
            cfg.banks[b].over_len = (rest as i64 + y).max(1).min(0xa000) as usize;
        }
        all_items.push(items);
    }
    // keep overflow areas below D000
    for b in 0..3 {
        let k = &mut cfg.banks[b];
        if k.over_aram + k.over_len > 0xd000 {
            k.over_aram = 0x1000;
        }
    }
    Ok((cfg, all_items))
}

pub fn c01(case: &mut Case) -> Res {
    let optimize = case.rng.chance(1, 2);
    let n = case.rng.us(1, 7);
    let size = *case.rng.pick(&[6usize, 20, 60, 150]);
    let mut songs = make_songs(case, n, size, true)?;
    resolve_midi(case, &mut songs, optimize)?;
    let (a, l) = assign_slots(case, n);
    if case.rng.chance(1, 30) {
        return c01_many_tracks(case, songs, a, l, optimize);
    }
    if case.rng.chance(1, 25) {
        let crowded = crowded_song(case);
        case.write("crowded.json", &crowded);
        let rom = RomCfg::roomy().build();
        let (b, i) = (case.rng.us(0, 2), case.rng.us(0, 2));
        let mut man = build_manifest(&songs, &a, &l);
        man[NAMES[b].0][NAMES[b].1[i]]["input"] = json!("crowded.json");
        let (run, after) = run_build(case, &rom, &man, optimize, "out.smc");
        if run.ok() {
            viol!("a song with more than eight tracks was accepted; it cannot be in the ROM completely");
        }
        if !run.clean_failure() {
            return case.judge_ok(&run);
        }
        if after.data != rom.data {
            viol!("rejected build changed the ROM");
        }
        case.count("crowded_songs_rejected", 1);
        return Ok(());
    }
    let cfg = if case.rng.chance(3, 4) {
        shaped_rom(case, &songs, &a, &l, optimize, false)?.0
    } else {
        RomCfg::roomy()
    };
    let rom = cfg.build();
    let man = build_manifest(&songs, &a, &l);
    let (run, after) = run_build(case, &rom, &man, optimize, "out.smc");
    if is_space(&run) {
        case.count("rejected_for_space", 1);
        return Ok(());
    }
    case.judge_ok(&run)?;
    if case.sample.is_none() || case.rng.chance(1, 3) {
        case.sample = Some(json!({"case": case.idx, "songs": n, "banks": format!("{:x?}", cfg.banks), "optimize": optimize}));
    }
    verify_all_slots(case, &after, &songs, &a, &l)?;
    case.count("roms_verified", 1);
    Ok(())
}

/// one of the songs has more tracks than a byte can count
fn c01_many_tracks(case: &mut Case, mut songs: Vec<TestSong>, a: Vec<Vec<usize>>, l: Vec<Vec<bool>>, optimize: bool) -> Res {
    let i = match songs.iter().position(|s| !s.midi && !s.song.part.is_empty()) {
        Some(i) => i,
        None => return Ok(()),
    };
    let n = *case.rng.pick(&[255usize, 256, 257, 258, 265, 300, 513]);
    songs[i].song.add_tracks(&mut case.rng, n);
    case.write(&songs[i].file, &songs[i].song.to_json());
    // in one slot of a bank only: it is large
    let empty = songs.len();
    let mut a = a;
    case.write("few.json", br#"{"parts":[{"tracks":[0]}],"tracks":[{"commands":[{"duration":12,"velocity":3,"sustain":2,"command":{"Note":150}}]}]}"#);
    songs.push(TestSong {
        file: "few.json".into(),
        song: song::Song {
            part: vec![0],
            tracks: vec![vec![Cmd { dur: Some(12), vel: Some(3), sus: Some(2), op: 150, args: vec![] }]],
        },
        midi: false,
    });
    for bank in a.iter_mut() {
        let at = case.rng.us(0, bank.len() - 1);
        for (j, s) in bank.iter_mut().enumerate() {
            *s = if j == at { i } else { empty };
        }
    }
    let rom = RomCfg::roomy().build();
    let man = build_manifest(&songs, &a, &l);
    let (run, after) = run_build(case, &rom, &man, optimize, "out.smc");
    if is_space(&run) {
        case.count("rejected_for_space", 1);
        return Ok(());
    }
    case.judge_ok(&run)?;
    case.count("songs_of_many_tracks", 1);
    verify_all_slots(case, &after, &songs, &a, &l)?;
    case.count("roms_verified", 1);
    Ok(())
}

/// a song with more tracks than the driver has voices
fn crowded_song(case: &mut Case) -> Vec<u8> {
    let n = *case.rng.pick(&[9usize, 9, 10, 12, 16, 24]);
    let gs = GenSong { max_tracks: 1, max_cmds: 8, loops: false, all_ops: false };
    let mut tracks = vec![];
    for _ in 0..n {
        tracks.push(gs.gen(&mut case.rng).tracks[0].clone());
    }
    let part = if case.rng.chance(1, 2) { (0..n).collect() } else { vec![0; n] };
    song::Song { part, tracks }.to_json()
}

/// offsets a build may write
pub fn allowed_mask(rom: &Rom) -> Result<Vec<bool>, String> {
    let mut ok = vec![false; rom.data.len()];
    for b in 0..3 {
        let bi = rom.bank(b)?;
        let m = bi.main();
        let lo = m.hdr + 4 + FIRST_SLOT[b] * 2;
        for p in lo..m.hdr + 4 + m.len {
            ok[p] = true;
        }
        let o = bi.over();
        for p in o.hdr + 4..o.hdr + 4 + o.len {
            ok[p] = true;
        }
    }
    Ok(ok)
}

pub fn c02(case: &mut Case) -> Res {
    let optimize = case.rng.chance(1, 2);
    let n = case.rng.us(1, 5);
    let size = *case.rng.pick(&[3usize, 10, 40, 120, 400]);
    let mut songs = make_songs(case, n, size, size <= 120)?;
    let (a, l) = assign_slots(case, n);
    let shaped = case.rng.chance(2, 3);
    let mut cfg = if shaped {
        // the sizes are only used to aim at the boundaries
        shaped_rom(case, &songs, &a, &l, optimize, true)?.0
    } else {
        RomCfg::random(&mut case.rng)
    };
    if case.rng.chance(1, 8) {
        // a main area that ends before or in its song table
        let b = case.rng.us(0, 2);
        cfg.banks[b].main_len = match case.rng.below(3) {
            0 => case.rng.us(1, 0x50),
            1 => (FIRST_SLOT[b] * 2 + case.rng.us(0, SLOTS[b] * 2 + 2)).max(1),
            _ => FIRST_SONG[b] - 0xd000 - case.rng.us(0, 3),
        };
        cfg.banks[b].over_aram = 0x1000;
        cfg.banks[b].over_len = case.rng.us(0x3000, 0xb000);
        case.count("main_area_without_room", 1);
    }
    let rom = cfg.build();
    let mask = allowed_mask(&rom).map_err(Fail::Inconclusive)?;
    let man = build_manifest(&songs, &a, &l);
    let (run, after) = run_build(case, &rom, &man, optimize, "out.smc");
    if after.data.len() != rom.data.len() {
        viol!("ROM length changed from {} to {} ({})", rom.data.len(), after.data.len(), run.brief());
    }
    let mut changed = 0u64;
    for p in 0..rom.data.len() {
        if rom.data[p] != after.data[p] {
            changed += 1;
            if !mask[p] {
                viol!("byte {:x} outside the song data areas changed from {:02x} to {:02x}; banks {:x?}", p, rom.data[p], after.data[p], cfg.banks);
            }
        }
    }
    case.count("bytes_compared", rom.data.len() as u64);
    case.count("bytes_changed", changed);
    case.sample = Some(json!({"case": case.idx, "songs": n, "banks": format!("{:x?}", cfg.banks), "exit": run.code, "changed": changed}));
    if !run.ok() {
        if changed > 0 {
            viol!("failed build changed {} bytes ({})", changed, run.brief());
        }
        if is_space(&run) {
            case.count("rejected_for_space", 1);
            return Ok(());
        }
        return case.judge_ok(&run);
    }
    case.count("built", 1);
    // no two pieces of one bank overlap
    resolve_midi(case, &mut songs, optimize)?;
    for b in 0..3 {
        let bi = after.bank(b).map_err(v)?;
        let mut ranges: Vec<(usize, usize, String)> = vec![];
        for i in 0..SLOTS[b] {
            let s = after.decode_slot(&bi, b, FIRST_SLOT[b] + i).map_err(|e| v(format!("bank {} song {}: {}", b, i, e)))?;
            for p in &s.pieces {
                let at = after.map(&bi, b, p.start).map_err(v)?;
                ranges.push((at, at + p.len, format!("slot {} {}", i, p.what)));
            }
        }
        ranges.sort();
        for w in ranges.windows(2) {
            if w[0].1 > w[1].0 {
                viol!("{} overlaps {}", w[0].2, w[1].2);
            }
        }
        case.count("pieces_checked", ranges.len() as u64);
        // how close to the ends did the data come
        for c in &[bi.main(), bi.over()] {
            let end = c.hdr + 4 + c.len;
            if ranges.iter().any(|r| r.1 == end) {
                case.count("areas_filled_to_last_byte", 1);
            }
        }
    }
    Ok(())
}

pub fn c04(case: &mut Case) -> Res {
    let optimize = case.rng.chance(1, 2);
    let n = case.rng.us(1, 4);
    let size = *case.rng.pick(&[1usize, 5, 20, 60, 200]);
    let mut songs = make_songs(case, n, size, size > 5)?;
    // (the size of a track nobody calls cannot be observed)
    for s in &mut songs {
        if !s.midi {
            s.song.drop_uncalled();
            case.write(&s.file, &s.song.to_json());
        }
    }
    resolve_midi(case, &mut songs, optimize)?;
    let (a, l) = assign_slots(case, n);
    let (cfg, items) = shaped_rom(case, &songs, &a, &l, optimize, true)?;
    let rom = cfg.build();
    let man = build_manifest(&songs, &a, &l);
    let mut want = Some(());
    let mut where_ = String::new();
    let mut plans = vec![];
    for b in 0..3 {
        let first = FIRST_SONG[b] - 0xd000;
        let k = &cfg.banks[b];
        let lay = layout(&items[b], first, k.main_len, k.over_len);
        if lay.is_none() {
            want = None;
            where_ = format!("bank {}", b);
        }
        plans.push(lay);
    }
    // a layout rejected only because the main area is smaller than its song table is out of scope
    let (run, after) = run_build(case, &rom, &man, optimize, "out.smc");
    case.sample = Some(json!({"case": case.idx, "banks": format!("{:x?}", cfg.banks), "expected_to_fit": want.is_some(), "exit": run.code}));
    match (want, run.ok()) {
        (Some(()), false) => viol!("songs fit but were rejected: {}; banks {:x?}", run.brief(), cfg.banks),
        (None, true) => viol!("{}: songs do not fit but were accepted; banks {:x?}", where_, cfg.banks),
        (None, false) => {
            if !run.clean_failure() {
                return case.judge_ok(&run);
            }
            if after.data != rom.data {
                viol!("rejected build changed the ROM");
            }
            case.count("rejected", 1);
        }
        (Some(()), true) => {
            let all = verify_all_slots(case, &after, &songs, &a, &l)?;
            case.count("accepted", 1);
            // items are where the rule puts them
            for b in 0..3 {
                let plan = plans[b].as_ref().unwrap();
                let over = plan.iter().filter(|&&x| x).count();
                if over > 0 {
                    case.count("accepted_with_overflow", 1);
                }
                let bi = after.bank(b).map_err(v)?;
                let mut used = [0usize; 2];
                for s in &all[b] {
                    for p in &s.pieces {
                        let o = bi.over();
                        if p.start >= o.aram && p.start < o.aram + o.len {
                            used[1] += p.len;
                        } else {
                            used[0] += p.len;
                        }
                    }
                }
                if used[1] == bi.over().len || FIRST_SONG[b] + used[0] == 0xd000 + bi.main().len {
                    case.count("areas_filled_exactly", 1);
                }
            }
        }
    }
    Ok(())
}

pub fn c15(case: &mut Case) -> Res {
    let optimize = case.rng.chance(2, 3);
    let n = case.rng.us(2, 6);
    let size = *case.rng.pick(&[10usize, 40, 90]);
    let mut songs = make_songs(case, n, size, true)?;
    // MIDI pieces that share voices and hold chords are where hidden state would show
    for i in 0..2 {
        let mut st = Style::all();
        st.max_notes = 90;
        st.long = false;
        let p = if i == 1 && case.rng.chance(1, 6) {
            case.count("pieces_of_long_sections", 1);
            let many = case.rng.chance(1, 4);
            gen_sections(&mut case.rng, many)
        } else {
            gen_piece(&mut case.rng, &st)
        };
        if p.guaranteed {
            let b = piece_bytes(case, &p);
            let f = format!("extra{}.mid", i);
            case.write(&f, &b);
            songs.push(TestSong { file: f, song: song::Song { part: vec![], tracks: vec![] }, midi: true });
        }
    }
    resolve_midi(case, &mut songs, optimize)?;
    let n = songs.len();
    let (a1, l1) = assign_slots(case, n);
    let (a2, l2) = assign_slots(case, n);
    let mut cfg = RomCfg::random(&mut case.rng);
    for b in 0..3 {
        cfg.banks[b].main_len = 0x2f00;
        cfg.banks[b].over_aram = 0x2000;
        cfg.banks[b].over_len = 0xb000;
    }
    cfg.ptrs = DEFAULT_PTRS;
    let rom = cfg.build();
    let flag: Vec<&str> = if optimize { vec![] } else { vec!["-s"] };
    let m1 = build_manifest(&songs, &a1, &l1).to_string();
    let m2 = build_manifest(&songs, &a2, &l2).to_string();
    case.write("m1.json", m1.as_bytes());
    case.write("m2.json", m2.as_bytes());
    fn go(case: &mut Case, flag: &[&str], extra: &[&str], man: &str, romname: &str) -> Res {
        let mut args: Vec<&str> = flag.to_vec();
        args.extend(extra);
        args.extend(&["build_rom", man, romname]);
        let run = case.run(&args);
        if is_space(&run) {
            return Err(Fail::Inconclusive("does not fit".into()));
        }
        case.judge_ok(&run)
    }
    for f in ["r1.smc", "r2.smc", "r3.smc", "r4.smc", "h.smc"] {
        case.write(f, &rom.data);
    }
    if let Err(Fail::Inconclusive(_)) = go(case, &flag, &[], "m1.json", "r1.smc") {
        case.count("too_large", 1);
        return Ok(());
    }
    let r1 = case.read("r1.smc");
    case.write("first.smc", &r1);
    go(case, &flag, &[], "m1.json", "r2.smc")?;
    if case.read("r2.smc") != r1 {
        viol!("two identical runs gave different ROMs");
    }
    go(case, &flag, &["-v"], "m1.json", "r3.smc")?;
    if case.read("r3.smc") != r1 {
        viol!("the verbose run gave a different ROM");
    }
    // from another directory
    let sub = case.path("elsewhere/deep");
    std::fs::create_dir_all(&sub).unwrap();
    let mut args: Vec<&str> = flag.clone();
    args.extend(&["build_rom", "../../m1.json", "../../r4.smc"]);
    let run = case.run_opts(&args, Opts { cwd: Some(&sub), ..Opts::default() });
    case.judge_ok(&run)?;
    if case.read("r4.smc") != r1 {
        viol!("a run from another directory gave a different ROM");
    }
    // rebuild in place
    go(case, &flag, &[], "m1.json", "r1.smc")?;
    if case.read("r1.smc") != r1 {
        viol!("rebuilding with the same manifest changed the ROM");
    }
    // history: m1 then m2 against m2 alone
    if let Err(Fail::Inconclusive(_)) = go(case, &flag, &[], "m2.json", "h.smc") {
        case.count("too_large", 1);
        return Ok(());
    }
    go(case, &flag, &[], "m2.json", "r1.smc")?;
    let h = Rom { data: case.read("h.smc"), ptrs: rom.ptrs };
    let g = Rom { data: case.read("r1.smc"), ptrs: rom.ptrs };
    let sh = verify_all_slots(case, &h, &songs, &a2, &l2)?;
    let sg = verify_all_slots(case, &g, &songs, &a2, &l2)?;
    for b in 0..3 {
        for i in 0..SLOTS[b] {
            if sh[b][i].addr != sg[b][i].addr || format!("{:?}", sh[b][i].pieces) != format!("{:?}", sg[b][i].pieces) {
                viol!("slot {}/{} is placed differently after an earlier build: {:x?} / {:x?}", b, i, sh[b][i].pieces, sg[b][i].pieces);
            }
        }
    }
    at_the_same_time(case, &rom, &flag, &r1, &h.data)?;
    // same song, other slots: all placements agree
    verify_all_slots(case, &Rom { data: r1, ptrs: rom.ptrs }, &songs, &a1, &l1)?;
    // one song everywhere
    let mids: Vec<usize> = (0..n).filter(|&i| songs[i].midi).collect();
    if !mids.is_empty() {
        let k = *case.rng.pick(&mids);
        let mut big = RomCfg::roomy();
        for b in 0..3 {
            big.banks[b].over_aram = 0x1000;
            big.banks[b].over_len = 0xc000;
        }
        let big = big.build();
        case.write("all.smc", &big.data);
        let f = songs[k].file.clone();
        let mut args = flag.clone();
        args.extend(&["all_overworld", &f, "all.smc"]);
        let run = case.run(&args);
        if !is_space(&run) {
            case.judge_ok(&run)?;
            let out = Rom { data: case.read("all.smc"), ptrs: big.ptrs };
            let one: Vec<Vec<usize>> = (0..3).map(|b| vec![k; SLOTS[b]]).collect();
            let lp: Vec<Vec<bool>> = (0..3).map(|b| vec![true; SLOTS[b]]).collect();
            verify_all_slots(case, &out, &songs, &one, &lp)?;
            case.count("one_song_everywhere", 1);
        }
    }
    if !mids.is_empty() {
        same_file_twice(case, &songs[*mids.first().unwrap()].file.clone(), &flag)?;
    }
    case.count("histories", 1);
    case.sample = Some(json!({"case": case.idx, "history": ["m1", "m1", "m2"], "songs": n}));
    Ok(())
}

/// Builds that run at the same time, on ROMs of their own, give what they give alone.
fn at_the_same_time(case: &mut Case, rom: &Rom, flag: &[&str], r1: &[u8], r2: &[u8]) -> Res {
    let mut jobs: Vec<(Vec<String>, String, Vec<u8>)> = vec![];
    for i in 0..case.rng.us(3, 5) {
        let (m, want) = if i == 0 || (i > 1 && case.rng.chance(1, 2)) { ("m1.json", r1) } else { ("m2.json", r2) };
        let out = format!("same{}.smc", i);
        case.write(&out, &rom.data);
        let mut args: Vec<String> = flag.iter().map(|f| f.to_string()).collect();
        if case.rng.chance(1, 4) {
            args.push("-v".into());
        }
        args.extend(["build_rom".to_string(), m.to_string(), out.clone()]);
        jobs.push((args, out, want.to_vec()));
    }
    let (cli, dir) = (case.env.cli.clone(), case.dir.clone());
    let mut envs = vec![];
    for _ in 0..jobs.len() {
        // most are held up here and there, so that they meet in different places
        let mut rules = vec![];
        if case.rng.chance(2, 3) {
            rules.push("w,f,0,delay,5000".to_string());
            for _ in 0..4 {
                let n = case.rng.range(1, 3000) >> case.rng.below(11);
                rules.push(format!("r,f,{},delay,8000", n.max(1)));
            }
        }
        let mut env = super::faults::shim_env(case, &rules.join(";"), "log");
        env.retain(|e| e.0 != "MON_FI_LOG" && (e.0 != "LD_PRELOAD" || !rules.is_empty()));
        envs.push(env);
    }
    let runs: Vec<Run> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .zip(envs)
            .map(|((args, _, _), env)| {
                let (cli, dir) = (&cli, &dir);
                s.spawn(move || run_cli(cli, dir, args, Opts { env, ..Opts::default() }))
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("run")).collect()
    });
    for ((args, out, want), run) in jobs.iter().zip(&runs) {
        case.last_cmd = args.join(" ");
        if !run.ok() {
            viol!("{} fails while other builds run: {}", case.last_cmd, run.brief());
        }
        if &case.read(out) != want {
            viol!("{} gives another ROM while other builds run", case.last_cmd);
        }
    }
    case.count("builds_at_the_same_time", jobs.len() as u64);
    Ok(())
}

/// One file in many slots with different tempo factors and loop settings, among others: each slot has
/// what a build with that entry alone has.
fn same_file_twice(case: &mut Case, file: &str, flag: &[&str]) -> Res {
    let mut big = RomCfg::roomy();
    for b in 0..3 {
        big.banks[b].over_aram = 0x1000;
        big.banks[b].over_len = 0xc000;
    }
    let rom = big.build();
    // a piece with a tempo, so that the factor is heard
    let (smf, _) = id_piece(case.idx as usize % 800, 300_000, 48);
    case.write("tempo.mid", &smf.to_bytes(WriteOpts::default()));
    let files = [file, "tempo.mid", "tempo.mid"];
    let entries: Vec<Value> = (0..4)
        .map(|_| {
            let f = *case.rng.pick(&files);
            match case.rng.below(3) {
                0 => json!({"input": f}),
                _ => json!({"input": f, "tempoAdjust": case.rng.range(1, 12) as f64 / 10.0, "loop": case.rng.chance(1, 2)}),
            }
        })
        .collect();
    let rng = &mut case.rng;
    let mut at: Vec<Vec<usize>> = SLOTS.iter().map(|&n| (0..n).map(|_| rng.us(0, entries.len() - 1)).collect()).collect();
    at[0][0] = 0;
    let man = manifest_with(|b, i| entries[at[b][i]].clone());
    case.write("twice.json", man.to_string().as_bytes());
    fn go(case: &mut Case, flag: &[&str], rom: &Rom, man: &str, out: &str) -> Result<Option<Rom>, Fail> {
        case.write(out, &rom.data);
        let mut args: Vec<&str> = flag.to_vec();
        args.extend(&["build_rom", man, out]);
        let run = case.run(&args);
        if is_space(&run) {
            return Ok(None);
        }
        case.judge_ok(&run)?;
        Ok(Some(Rom { data: case.read(out), ptrs: rom.ptrs }))
    }
    let all = match go(case, flag, &rom, "twice.json", "twice.smc")? {
        None => return Ok(()),
        Some(r) => r,
    };
    for (e, entry) in entries.iter().enumerate() {
        if !at.iter().any(|l| l.contains(&e)) {
            continue;
        }
        let man = manifest_with(|b, i| if (b, i) == (0, 0) { entry.clone() } else { json!({"input": "tempo.mid"}) });
        case.write("alone.json", man.to_string().as_bytes());
        let alone = match go(case, flag, &rom, "alone.json", "alone.smc")? {
            None => return Ok(()),
            Some(r) => r,
        };
        let b0 = alone.bank(0).map_err(v)?;
        let s0 = alone.decode_slot(&b0, 0, 0).map_err(v)?;
        let want = format!("{:?}", perform(&s0.song).map_err(v)?);
        for b in 0..3 {
            let bi = all.bank(b).map_err(v)?;
            for i in 0..SLOTS[b] {
                if at[b][i] != e {
                    continue;
                }
                let s = all.decode_slot(&bi, b, FIRST_SLOT[b] + i).map_err(v)?;
                let got = format!("{:?}", perform(&s.song).map_err(v)?);
                if got != want || s.song.looped != s0.song.looped {
                    viol!("{}/{}: {} does not sound as when it is the first song: {} / {}", b, i, entry, got.chars().take(300).collect::<String>(), want.chars().take(300).collect::<String>());
                }
                case.count("slots_compared_with_alone", 1);
            }
        }
    }
    Ok(())
}

/// a tiny piece whose notes spell its number
fn id_piece(id: usize, tempo: u32, tpb: u64) -> (Smf, Vec<u8>) {
    let digits = [id % 10, (id / 10) % 10, (id / 100) % 10, 7 - (id % 7)];
    let mut notes = vec![];
    let mut pitches = vec![];
    for (i, &d) in digits.iter().enumerate() {
        let note = 40 + d as u8 + 3 * i as u8;
        pitches.push(note + 0x68);
        notes.push(GNote { on: tpb * i as u64, off: tpb * i as u64 + tpb, note, vel: 80 });
    }
    let p = Part { ch: 0, notes, other: vec![] };
    let mut rng = Rng::new(id as u64);
    let mut evs = part_events(&mut rng, &p);
    evs.insert(0, Ev { tick: 0, k: K::Tempo(tempo) });
    (Smf { tpb: tpb as u16, tracks: vec![evs], eot_delta: vec![0] }, pitches)
}

struct Want {
    pitches: Vec<u8>,
    tempo: u8,
    looped: bool,
}

fn check_id_slot(after: &Rom, b: usize, i: usize, w: &Want) -> Result<(), String> {
    let bi = after.bank(b)?;
    let s = after.decode_slot(&bi, b, FIRST_SLOT[b] + i)?;
    let p = perform(&s.song)?;
    let got: Vec<u8> = p.notes.iter().map(|n| n.pitch).collect();
    if got != w.pitches {
        return Err(format!("plays {:x?}, expected {:x?}", got, w.pitches));
    }
    if s.song.looped != w.looped {
        return Err(format!("loops: {}, expected {}", s.song.looped, w.looped));
    }
    if !w.pitches.is_empty() {
        let t: Vec<u8> = p.tempos.iter().map(|t| t.2).collect();
        if t.len() != 1 || (t[0] as i32 - w.tempo as i32).abs() > 1 {
            return Err(format!("tempo {:?}, expected {}", t, w.tempo));
        }
    } else if s.song.tracks.iter().any(|t| t.is_some()) {
        return Err("tracks in a silent song".into());
    }
    Ok(())
}

pub fn c16(case: &mut Case) -> Res {
    let mode = case.rng.weighted(&[6, 1, 1]);
    let mut cfg = RomCfg::random(&mut case.rng);
    for b in 0..3 {
        cfg.banks[b].main_len = 0x2000;
        cfg.banks[b].over_len = 0x600;
    }
    let custom = cfg.ptrs != DEFAULT_PTRS;
    // decoy banks at the default addresses: a build that ignores the option would use them
    let rom = cfg.build();
    // addresses can be given with a bank number: fold them into the first 32 KB
    let arg = if case.rng.chance(1, 2) {
        bank_addrs_arg(rom.ptrs)
    } else {
        // (the 8000 bit makes no difference unless the pointer crosses the end of a bank)
        let p1 = if (rom.ptrs[1] & 0x7fff) + 8 < 0x8000 { rom.ptrs[1] ^ 0x8000 } else { rom.ptrs[1] };
        format!("{:06x},{:x},{:X}", rom.ptrs[0], p1, rom.ptrs[2])
    };
    let tempo = 60_000_000 / case.rng.range(60, 250) as u32;
    let bpm = (6e7 / tempo as f64).ceil();
    case.sig(case.env.seed.wrapping_mul(1_000_003).wrapping_add(case.idx));
    let flags: Vec<&str> = case.rng.pick(&[&[][..], &[], &[], &["-s"], &["-v"], &["-s", "-v"], &["-vs"]]).to_vec();
    let joined = format!("--bank_addrs={}", arg);
    let addr_args: Vec<&str> = if custom || case.rng.chance(1, 3) {
        if case.rng.chance(2, 3) { vec!["--bank_addrs", &arg] } else { vec![&joined] }
    } else {
        vec![]
    };
    // the options come after the command's name, anywhere among its files
    let addr_at = 1 + case.rng.us(0, 2);
    if mode == 0 {
        let mut want: Vec<Vec<Want>> = vec![vec![], vec![], vec![]];
        let abs_dir = case.path("absolute songs");
        let man_dir = "sub dir/manifests";
        std::fs::create_dir_all(case.path(man_dir)).unwrap();
        let mut id = 0;
        let mut files: Vec<(String, Vec<u8>)> = vec![];
        let man = {
            let rng = &mut case.rng;
            manifest_with(|b, _| {
                id += 1;
                let (smf, pitches) = id_piece(id, tempo, 96);
                let bytes = smf.to_bytes(WriteOpts::default());
                // name collisions between directories on purpose: the same file name in two places
                let style = rng.below(8);
                let (input, at) = match style {
                    0 => (format!("p{}.mid", id), format!("{}/p{}.mid", man_dir, id)),
                    1 => (format!("../p{}.mid", id), format!("sub dir/p{}.mid", id)),
                    2 => (format!("./x/y/p{}.mid", id), format!("{}/x/y/p{}.mid", man_dir, id)),
                    4 => (format!("x/../p{}.mid", id), format!("{}/p{}.mid", man_dir, id)),
                    5 => (format!("x//./y/../../../manifests//p{}.mid", id), format!("{}/p{}.mid", man_dir, id)),
                    // (the directory above the one the link leads to)
                    6 => (format!("lnk/../p{}.mid", id), format!("absolute songs/p{}.mid", id)),
                    3 => (format!("{}/p{}.mid", abs_dir.display(), id), format!("absolute songs/p{}.mid", id)),
                    _ => {
                        let name = format!("{} {}.mid", crate::rng::odd_stem(rng), id);
                        (name.clone(), format!("{}/{}", man_dir, name))
                    }
                };
                files.push((at, bytes));
                let mut o = Map::new();
                o.insert("input".into(), json!(input));
                let mut factor = 0.2f64;
                if rng.chance(1, 2) {
                    match rng.below(5) {
                        2 => {
                            o.insert("tempoAdjust".into(), rng.pick(&[json!(null), json!("0.5"), json!("1"), json!(true), json!(false), json!([0.5]), json!({"tempoAdjust": 0.5})]).clone());
                        }
                        1 => {
                            factor = *rng.pick(&[0.001, 0.01, 1.25, 1.5, 2.0, 3.75, 10.0, 0.3, 0.999, 0.0, -0.5, -7.0, 1e-20, 1000.0, 1e20]);
                            o.insert("tempoAdjust".into(), json!(factor));
                        }
                        0 => {
                            factor = 1.0;
                            o.insert("tempoAdjust".into(), json!(1));
                        }
                        _ => {
                            factor = rng.range(30, 900) as f64 / 1000.0;
                            o.insert("tempoAdjust".into(), json!(factor));
                        }
                    }
                }
                let mut looped = true;
                match rng.below(13) {
                    0..=3 => {
                        looped = false;
                        o.insert("loop".into(), json!(false));
                    }
                    4..=7 => {
                        o.insert("loop".into(), json!(true));
                    }
                    // as if not given
                    8 => {
                        o.insert("loop".into(), rng.pick(&[json!(null), json!(0), json!(1), json!("no"), json!("false"), json!([]), json!([false]), json!({"loop": false})]).clone());
                    }
                    _ => {}
                }
                if rng.chance(1, 4) {
                    o.insert("comment".into(), json!("ignored"));
                }
                want[b].push(Want { pitches, tempo: ((bpm * factor as f32 as f64).floor()).min(255.0).max(1.0) as u8, looped });
                Value::Object(o)
            })
        };
        for (at, bytes) in &files {
            case.write(at, bytes);
        }
        std::fs::create_dir_all(case.path(&format!("{}/x/y", man_dir))).unwrap();
        std::fs::create_dir_all(case.path("absolute songs/far")).unwrap();
        let _ = std::os::unix::fs::symlink(case.path("absolute songs/far"), case.path(&format!("{}/lnk", man_dir)));
        // files of the same names in the working directory must not be picked up
        let (decoy, _) = id_piece(999, tempo, 96);
        let decoy = decoy.to_bytes(WriteOpts::default());
        for k in 1..35 {
            case.write(&format!("p{}.mid", k), &decoy);
        }
        let man = shuffle_keys(&mut case.rng, &man);
        case.write("sub dir/manifests/m.json", serde_json::to_string_pretty(&man).unwrap().as_bytes());
        case.write("out.smc", &rom.data);
        let mpath = case.path("sub dir/manifests/m.json");
        let mut args: Vec<&str> = vec!["build_rom"];
        let abs = mpath.to_str().unwrap().to_string();
        // from where the manifest is named, and how
        let (cwd, name) = *case.rng.pick(&[
            ("", ""),
            ("", "sub dir/manifests/m.json"),
            ("", "./sub dir/manifests/m.json"),
            ("", "sub dir/../sub dir/manifests/m.json"),
            ("sub dir/manifests", "m.json"),
            ("sub dir/manifests", "./m.json"),
            ("sub dir/manifests", "../manifests/m.json"),
            ("sub dir", "manifests/m.json"),
            ("absolute songs", "../sub dir/manifests/m.json"),
        ]);
        std::fs::create_dir_all(case.path("absolute songs")).unwrap();
        let out = case.path("out.smc").to_str().unwrap().to_string();
        args.push(if name.is_empty() { &abs } else { name });
        args.push(&out);
        args.splice(addr_at..addr_at, addr_args);
        args.splice(0..0, flags);
        let cwd = case.path(cwd);
        let run = case.run_opts(&args, Opts { cwd: Some(&cwd), ..Opts::default() });
        case.judge_ok(&run)?;
        let after = Rom { data: case.read("out.smc"), ptrs: rom.ptrs };
        for b in 0..3 {
            for (i, w) in want[b].iter().enumerate() {
                check_id_slot(&after, b, i, w)
                    .map_err(|e| v(format!("{} / {}: {}", NAMES[b].0, NAMES[b].1[i], e)))?;
                case.count("slots_checked", 1);
            }
        }
        case.count("manifests", 1);
    } else {
        let (smf, pitches) = id_piece(case.idx as usize % 800, tempo, 96);
        case.write("song.mid", &smf.to_bytes(WriteOpts::default()));
        case.write("out.smc", &rom.data);
        let cmd = if mode == 1 { "all_overworld" } else { "file_select" };
        let mut args: Vec<&str> = vec![cmd, "song.mid", "out.smc"];
        args.splice(addr_at..addr_at, addr_args);
        args.splice(0..0, flags);
        case.must(&args)?;
        let after = Rom { data: case.read("out.smc"), ptrs: rom.ptrs };
        for b in 0..3 {
            for i in 0..SLOTS[b] {
                let w = if mode == 1 || (b, i) == (0, 10) {
                    Want { pitches: pitches.clone(), tempo: (bpm * 0.2f32 as f64).floor() as u8, looped: true }
                } else {
                    Want { pitches: vec![], tempo: 0, looped: false }
                };
                check_id_slot(&after, b, i, &w)
                    .map_err(|e| v(format!("{}: {} / {}: {}", cmd, NAMES[b].0, NAMES[b].1[i], e)))?;
                case.count("slots_checked", 1);
            }
        }
        case.count(cmd, 1);
    }
    // lists that are not three hexadecimal numbers
    if case.rng.chance(1, 3) {
        let p = rom.ptrs;
        let k = case.rng.us(0, 2);
        let mut items: Vec<String> = p.iter().map(|a| format!("{:x}", a)).collect();
        match case.rng.below(5) {
            0 => {
                items.remove(k);
            }
            1 => items.insert(k, format!("{:x}", p[k])),
            2 => items.push(format!("{:x}", p[k])),
            3 => items[k] = case.rng.pick(&["", "g14", "zz", "9 1", "song.mid", "1.5", "é"]).to_string(),
            _ => items[k] = format!("1{:08x}", p[k]),
        }
        let list = items.join(",");
        let (smf, _) = id_piece(3, tempo, 96);
        case.write("one.mid", &smf.to_bytes(WriteOpts::default()));
        let one = manifest_with(|_, _| json!({"input": "one.mid"}));
        case.write("one.json", serde_json::to_string_pretty(&one).unwrap().as_bytes());
        case.write("list.smc", &rom.data);
        let (cmd, input) = *case.rng.pick(&[("build_rom", "one.json"), ("all_overworld", "one.mid"), ("file_select", "one.mid")]);
        let run = case.run(&[cmd, input, "list.smc", "--bank_addrs", &list]);
        if run.signal == Some(14) || run.signal == Some(24) || run.signal == Some(9) {
            return Err(Fail::Inconclusive(run.brief()));
        }
        if run.code == Some(0) {
            return Err(v(format!("{} accepts the bank addresses {:?}", cmd, list)));
        }
        if case.read("list.smc") != rom.data {
            return Err(v(format!("{} refuses the bank addresses {:?} but changes the ROM", cmd, list)));
        }
        case.count("bad_address_lists", 1);
    }
    case.sample = Some(json!({"case": case.idx, "mode": mode, "ptrs": format!("{:x?}", rom.ptrs)}));
    Ok(())
}

pub fn c17(case: &mut Case) -> Res {
    let optimize = case.rng.chance(1, 2);
    let real_sample = case.rng.chance(1, 40);
    let mut cfg = RomCfg::random(&mut case.rng);
    cfg.ptrs = DEFAULT_PTRS;
    // the generator has no option for other pointer addresses
    let size = *case.rng.pick(&[5usize, 30, 100]);
    let n = case.rng.us(1, 4);
    let songs = make_songs(case, n, size, true)?;
    let (a, l) = assign_slots(case, n);
    if case.rng.chance(1, 2) {
        cfg = shaped_rom(case, &songs, &a, &l, optimize, true)?.0;
        cfg.ptrs = DEFAULT_PTRS;
    }
    let real = if real_sample {
        let mut d = std::fs::read(case.env.repo.join("sample/dummy.smc")).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let mut junk = Rng::new(case.idx);
        let keep = expected_dummy(&Rom { data: d.clone(), ptrs: DEFAULT_PTRS }).map_err(Fail::Inconclusive)?;
        for p in 0..d.len() {
            if keep[p] == 0 {
                d[p] = junk.next() as u8;
            }
        }
        // headers with zero bytes must survive: restore them
        let orig = std::fs::read(case.env.repo.join("sample/dummy.smc")).unwrap();
        let r0 = Rom { data: orig.clone(), ptrs: DEFAULT_PTRS };
        for b in 0..3 {
            for c in &r0.bank(b).map_err(Fail::Inconclusive)?.chunks {
                d[c.hdr..c.hdr + 4].copy_from_slice(&orig[c.hdr..c.hdr + 4]);
            }
            for o in [0, 4, 8] {
                let q = pc(DEFAULT_PTRS[b] + o);
                d[q] = orig[q];
            }
        }
        Rom { data: d, ptrs: DEFAULT_PTRS }
    } else {
        cfg.build()
    };
    case.sig(hash_bytes(&real.data));
    case.write("real.smc", &real.data);
    // an existing output of another length
    match case.rng.below(4) {
        0 => {}
        1 => {
            let k = real.data.len() + case.rng.us(1, 5000);
            case.write("dummy.smc", &vec![0xa5; k]);
        }
        2 => {
            let k = case.rng.us(0, real.data.len());
            case.write("dummy.smc", &vec![0x5a; k]);
        }
        _ => {
            case.write("dummy.smc", &vec![0xff; real.data.len()]);
        }
    }
    case.must(&["gen_fake_rom", "real.smc", "dummy.smc"])?;
    if case.read("real.smc") != real.data {
        viol!("the source ROM was modified");
    }
    let want = expected_dummy(&real).map_err(Fail::Inconclusive)?;
    let got = case.read("dummy.smc");
    if got.len() != want.len() {
        viol!("dummy ROM has length {}, the real one {}", got.len(), want.len());
    }
    if let Some(p) = (0..want.len()).find(|&p| want[p] != got[p]) {
        viol!("dummy ROM byte {:x} is {:02x}, expected {:02x}", p, got[p], want[p]);
    }
    case.count("dummy_bytes", got.len() as u64);
    // building into either
    let man = build_manifest(&songs, &a, &l);
    let (r1, o1) = run_build(case, &real, &man, optimize, "out1.smc");
    let (r2, o2) = run_build(case, &Rom { data: got.clone(), ptrs: real.ptrs }, &man, optimize, "out2.smc");
    if r1.code != r2.code {
        viol!("building into the real ROM: {}; into the dummy ROM: {}", r1.brief(), r2.brief());
    }
    if r1.ok() {
        case.count("built_both", 1);
        // wherever the dummy build wrote something, the real build wrote the same
        for p in 0..got.len() {
            if o2.data[p] != got[p] && o1.data[p] != o2.data[p] {
                viol!("byte {:x}: {:02x} in the real ROM, {:02x} in the dummy ROM", p, o1.data[p], o2.data[p]);
            }
        }
        for b in 0..3 {
            let b1 = o1.bank(b).map_err(v)?;
            let b2 = o2.bank(b).map_err(v)?;
            for i in 0..SLOTS[b] {
                let s1 = o1.decode_slot(&b1, b, FIRST_SLOT[b] + i).map_err(v)?;
                let s2 = o2.decode_slot(&b2, b, FIRST_SLOT[b] + i).map_err(v)?;
                if s1.addr != s2.addr || format!("{:?}", s1.song) != format!("{:?}", s2.song) {
                    viol!("slot {}/{} differs between real and dummy ROM", b, i);
                }
            }
        }
    } else {
        case.count("rejected_both", 1);
        if !is_space(&r1) {
            return case.judge_ok(&r1);
        }
    }
    case.sample = Some(json!({"case": case.idx, "rom_bytes": real.data.len(), "from_sample": real_sample, "build_exit": r1.code}));
    Ok(())
}


fn expected_dummy(real: &Rom) -> Result<Vec<u8>, String> {
    let mut out = vec![0u8; real.data.len()];
    for b in 0..3 {
        for o in [0, 4, 8] {
            let p = pc(real.ptrs[b] + o);
            out[p] = real.data[p];
        }
        for c in &real.bank(b)?.chunks {
            out[c.hdr..c.hdr + 4].copy_from_slice(&real.data[c.hdr..c.hdr + 4]);
        }
    }
    Ok(out)
}

