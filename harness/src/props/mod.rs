pub mod build;
pub mod compress;
pub mod crash;
pub mod dump;
pub mod faults;
pub mod files;
pub mod fuzz;
pub mod music;
pub mod voices;

use crate::engine::Prop;

const DRIVER: &str = "the sound driver follows the command format written down in harness/src/nspc.rs (operand counts, running duration and velocity, loop calls)";
const HEADERS: &str = "ROM images are well-formed: three bank pointers, chunk chains, a D000 chunk followed by the overflow chunk";
const NOREF: &str = "the tool is observed from outside through its command line; generated workloads sample the input space";

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", level: "exploration", rule: "random song sets (JSON and MIDI, 1-8 tracks, loops) assigned to all 34 slots of ROM images whose chunk sizes put the switch to the overflow area at chosen items; distinct = distinct song files", cases: (800, 20000), secs: (60, 600), need: &["slots_decoded", "songs_split", "songs_in_overflow", "split_songs_with_calls"], assumptions: &[DRIVER, HEADERS, NOREF], run: build::c01 },
        Prop { id: "C02", level: "exploration", rule: "builds of random song sets into ROM images full of random bytes, with areas sized within two bytes of what is needed; every byte compared; distinct = distinct song files", cases: (600, 30000), secs: (60, 600), need: &["built", "rejected_for_space", "areas_filled_to_last_byte"], assumptions: &[HEADERS, NOREF], run: build::c02 },
        Prop { id: "C03", level: "fault_enumeration", rule: "failing songs or files placed at every slot, and write/read faults injected at every system call of a build; distinct = distinct (fault, place) pairs", cases: (640, 8000), secs: (90, 600), need: &["write_faults", "read_faults", "bad_songs", "shim_actions"], assumptions: &["faults are injected at the libc read/write interface", NOREF], run: faults::c03 },
        Prop { id: "C04", level: "exploration", rule: "song sets whose items (measured in a roomy ROM) fill both areas to within two bytes of the limit; distinct = distinct song files", cases: (900, 20000), secs: (60, 600), need: &["accepted", "rejected", "accepted_with_overflow", "areas_filled_exactly"], assumptions: &[DRIVER, HEADERS, NOREF], run: build::c04 },
        Prop { id: "C05", level: "exploration", rule: "pieces with repeated phrases, near-repeats, runs and slides converted with and without optimisation; distinct = distinct MIDI files", cases: (2500, 60000), secs: (60, 600), need: &["loop_bodies", "loop_calls_over_100", "phrases", "driver_steps_compared", "counted_for_file_select", "counted_for_build_rom", "counted_for_all_overworld"], assumptions: &[DRIVER, NOREF], run: compress::c05 },
        Prop { id: "C06", level: "exploration", rule: "JSON songs using every command kind with edge operands, and MIDI pieces, written to a ROM and parsed back; distinct = distinct song files", cases: (4000, 120000), secs: (60, 600), need: &["songs_checked", "inexpressible_songs", "songs_of_several_parts", "loop_calls", "op_note", "op_e0", "op_e1", "op_e2", "op_e3", "op_e4", "op_e5", "op_e6", "op_e7", "op_e8", "op_e9", "op_ea", "op_eb", "op_ec", "op_ed", "op_ee", "op_ef", "op_f0", "op_f1", "op_f2", "op_f3", "op_f4", "op_f5", "op_f6", "op_f7", "op_f8", "op_f9", "op_fa"], assumptions: &[DRIVER, NOREF], run: compress::c06 },
        Prop { id: "C07", level: "exploration", rule: "generated pieces (1-16 channels, chords, turns, drums, any resolution) and transformed sample pieces; decoded notes paired with MIDI notes; distinct = distinct MIDI files", cases: (6000, 300000), secs: (60, 600), need: &["notes_heard", "tied_notes", "folded_pitches", "very_long_notes", "real_pieces"], assumptions: &[DRIVER, NOREF], run: music::c07 },
        Prop { id: "C08", level: "exploration", rule: "long pieces at every kind of resolution, with very long rests and notes; positions accumulated in integers and compared with the MIDI times; distinct = distinct MIDI files", cases: (3500, 120000), secs: (60, 600), need: &["track_lengths_checked", "pieces_timed_in_seconds", "odd_resolutions", "huge_pieces"], assumptions: &[DRIVER, NOREF], run: music::c08 },
        Prop { id: "C09", level: "exploration", rule: "polyphony profiles around eight voices; acceptance compared with exact peak counts and an exact grouping search; distinct = distinct MIDI files", cases: (5000, 200000), secs: (60, 600), need: &["accepted_promised", "rejected_over_eight", "accepted_with_eight_notes", "accepted_with_more_than_eight_channels"], assumptions: &[DRIVER, NOREF], run: voices::c09 },
        Prop { id: "C10", level: "exploration", rule: "pieces with program and volume changes on channels sharing voices; driver state at every note onset and at every volume change within notes compared; distinct = distinct MIDI files", cases: (8000, 300000), secs: (60, 600), need: &["notes_with_own_volume", "notes_with_program", "percussion_notes", "shared_voices", "volume_changes_in_notes"], assumptions: &[DRIVER, "instrument map re-written from the documented instrument list", NOREF], run: music::c10 },
        Prop { id: "C11", level: "exploration", rule: "pieces with all velocities and note/rest ratios; velocity and articulation of every decoded note compared; distinct = distinct MIDI files", cases: (8000, 300000), secs: (60, 600), need: &["soft_notes", "articulation_1", "articulation_4", "articulation_6", "articulation_7"], assumptions: &[DRIVER, NOREF], run: music::c11 },
        Prop { id: "C12", level: "exploration", rule: "pieces with sparse and dense tempo maps and any tempo factor; distinct = distinct MIDI files", cases: (8000, 300000), secs: (60, 600), need: &["tempo_events", "tempo_during_note"], assumptions: &[DRIVER, NOREF], run: music::c12 },
        Prop { id: "C13", level: "exploration", rule: "mutated and hand-made hostile MIDI, JSON, manifest and ROM files, paths and bank addresses for every sub-command; distinct = distinct inputs", cases: (12000, 120000), secs: (60, 900), need: &["midi_inputs", "json_inputs", "manifest_inputs", "rom_inputs", "argument_inputs", "clean_errors", "successes"], assumptions: &["inputs of up to a few hundred kilobytes describing at most a few hours of music; overflow checks are on in the tool's own crate and off in the MIDI reader library", NOREF], run: fuzz::c13 },
        Prop { id: "C14", level: "exploration", rule: "MIDI pieces built directly and through their JSON export; JSON songs of every command kind re-formatted; distinct = distinct files", cases: (2500, 60000), secs: (60, 600), need: &["exports_of_odd_names", "round_trips", "reformatted_songs", "op_ee", "op_f9", "op_ef"], assumptions: &[DRIVER, NOREF], run: compress::c14 },
        Prop { id: "C15", level: "exploration", rule: "histories of builds on one ROM: repeated, verbose, from another directory, over an earlier build, several at the same time, one song everywhere; distinct = distinct song files", cases: (320, 4000), secs: (75, 600), need: &["histories", "one_song_everywhere", "builds_at_the_same_time"], assumptions: &[DRIVER, HEADERS, NOREF], run: build::c15 },
        Prop { id: "C16", level: "exploration", rule: "manifests with 34 different identifiable songs, shuffled keys, mixed paths, options and bank addresses; distinct = distinct cases (each has its own layout, paths and options)", cases: (6000, 30000), secs: (60, 600), need: &["manifests", "all_overworld", "file_select", "slots_checked"], assumptions: &[DRIVER, HEADERS, NOREF], run: build::c16 },
        Prop { id: "C17", level: "exploration", rule: "dummy ROMs of random images over existing files of other lengths, then built into; distinct = distinct ROM images and song files", cases: (700, 25000), secs: (60, 600), need: &["dummy_bytes", "built_both", "rejected_both"], assumptions: &[DRIVER, HEADERS, NOREF], run: build::c17 },
        Prop { id: "C18", level: "exploration", rule: "legato and detached lines with portamento controllers at random times; distinct = distinct MIDI files", cases: (8000, 400000), secs: (60, 600), need: &["class_Must", "class_MustNot", "slides"], assumptions: &[DRIVER, NOREF], run: music::c18 },
        Prop { id: "C19", level: "exploration", rule: "pieces re-encoded four ways each (status bytes, note ends, tracks, order, inert events, resolution); distinct = distinct reference files", cases: (3000, 90000), secs: (60, 600), need: &["variants", "scaled", "pieces_accepted"], assumptions: &[NOREF], run: voices::c19 },
        Prop { id: "C20", level: "fault_enumeration", rule: "standard output closed, full, slow, broken at every write, delayed; succeeding and failing builds, exports and single-song writes, verbose and not; distinct = distinct (fault, build) pairs", cases: (240, 6000), secs: (120, 600), need: &["odd_names", "stdout_faults", "slow_readers", "failing_builds", "shim_actions", "verbose_faults", "cmd_midi2json", "cmd_all_overworld", "cmd_file_select"], assumptions: &["faults are injected at the libc write interface and at the pipe's reader", NOREF], run: faults::c20 },
        Prop { id: "C21", level: "exploration", rule: "every command with good and failing input, over old outputs of other lengths, with other permissions and behind links, among files of neighbouring names; the whole directory tree compared before and after; distinct = distinct (command, input, output) combinations and songs", cases: (1500, 60000), secs: (60, 600), need: &["builds", "dumps", "failures_without_a_trace", "outputs_replaced", "cmd_midi2json", "cmd_gen_fake_rom", "cmd_all_overworld", "cmd_file_select"], assumptions: &[NOREF], run: files::c21 },
        Prop { id: "C22", level: "exploration", rule: "generated and real pieces, with odd meta events, long data, empty tracks, notes without length and pieces that do not fit the voices; the dump parsed and compared event by event with the file; distinct = distinct MIDI files", cases: (3500, 100000), secs: (60, 600), need: &["track_events", "pieces_not_converted", "pieces_of_more_than_eight_notes_at_once", "broken_files", "repeated", "other_flags", "other_directory", "other_status_bytes", "dumps_to_full_output", "dump_write_errors", "dumps_in_short_writes", "dumps_to_closed_output"], assumptions: &[NOREF], run: dump::c22 },
        Prop { id: "C23", level: "fault_enumeration", rule: "every writing command killed at its reads, writes and reports, within writes, and with writes that fail part of the way, once or several times in a row, then run again; distinct = distinct (command, interruption) pairs", cases: (320, 8000), secs: (90, 600), need: &["interruptions", "half_written_roms", "untouched_roms", "repeated", "killed_before_a_write", "killed_within_a_write", "full_within_a_write", "killed_before_a_read", "killed_while_reporting", "cmd_midi2json", "cmd_gen_fake_rom"], assumptions: &["commands are interrupted at the libc read/write interface", NOREF], run: crash::c23 },
    ]
}
