From ae47395a46abfc147888e19df97440730698e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 01/29] fix: do not fold a rest into a note when the total
 exceeds the longest duration

A duration byte of 0x80 or more reads as a note or command to the driver.
---
 src/nspc/command.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3aecdb0..b509529 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -374,7 +374,10 @@ impl ParameterizedCommand {
                 let note_duration = self.duration.unwrap() as u16;
                 let rest_duration = next_command.duration.unwrap() as u16;
                 let total_duration = note_duration + rest_duration;
-                if (note_duration * 8) % total_duration == 0 || note_duration > rest_duration * 16 {
+                if total_duration <= 0x7f
+                    && ((note_duration * 8) % total_duration == 0
+                        || note_duration > rest_duration * 16)
+                {
                     let sustain = ((note_duration * 8) / total_duration) as u8;
                     self.sustain = Some(sustain.min(7));
                     self.duration = Some(total_duration as u8);
-- 
2.43.0


From 55e54da261ea22b0a93367d6e547f6542439b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 02/29] fix: move notes outside the driver's range by octaves

Notes below 24 or above 95 were written as durations or commands.
---
 src/nspc/track.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 84e9434..37a97d8 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -18,6 +18,17 @@ struct Duration {
     overflow_count: u8,
 }
 
+// the driver's note byte, moved by octaves into the range it can play (0x80 to 0xc7)
+fn note_byte(note: u8) -> u8 {
+    if note < 24 {
+        0x80 + note % 12
+    } else if note > 95 {
+        0xbc + note % 12
+    } else {
+        note + 0x68
+    }
+}
+
 impl Track {
     fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
         let length_beats = (ticks as f32) / (ticks_per_beat as f32);
@@ -134,7 +145,7 @@ impl Track {
                                     if push_as_tie {
                                         Command::Tie
                                     } else {
-                                        Command::Note(note + 0x68)
+                                        Command::Note(note_byte(note))
                                     },
                                 ));
                                 for i in 0..duration.overflow_count {
@@ -172,7 +183,7 @@ impl Track {
                                                 true,
                                             )
                                                 .length,
-                                            note + 0x68,
+                                            note_byte(note),
                                         )
                                     });
                                 }
-- 
2.43.0


From 8d12262913f13f20b3cc760020802c5d8fff1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 03/29] fix: write velocity again after a loop call

The loop body may have changed the driver's velocity and sustain, so a note
after the call that has the same values as the last one before it needs them.
---
 src/nspc/command.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index b509529..3c2332a 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -357,6 +357,10 @@ impl ParameterizedCommand {
             out.write_u8(velocity_sustain)?;
         }
         self.command.write(out, call_loops)?;
+        if let Command::CallLoop(..) = self.command {
+            // the loop may have changed either, so the next values given must be written
+            return Ok((0, Some(0xff)));
+        }
         Ok((duration_out, velocity_sustain_out))
     }
 
-- 
2.43.0


From fa3c5c597fb9f431f4bb4840889abf6ef125035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 04/29] fix: write both operands of the channel volume fade
 command

---
 src/nspc/command.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3c2332a..67cb123 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -109,7 +109,7 @@ pub enum Command {
     Tremolo(u8, u8, u8),
     TremoloOff,
     ChannelVolume(u8),
-    ChannelVolumeFade(u8),
+    ChannelVolumeFade(u8, u8),
     CallLoop(usize, u8),
     VibratoFade(u8),
     PitchEnvelopeTo(u8, u8, u8),
@@ -201,9 +201,10 @@ impl Command {
                 out.write_u8(0xed)?;
                 out.write_u8(p1)?;
             }
-            Command::ChannelVolumeFade(p1) => {
+            Command::ChannelVolumeFade(p1, p2) => {
                 out.write_u8(0xee)?;
                 out.write_u8(p1)?;
+                out.write_u8(p2)?;
             }
             Command::CallLoop(p1, p2) => {
                 out.write_u8(0xef)?;
-- 
2.43.0


From db19ba1058bd18c83e60e89959df9d832cc8c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 05/29] fix: give notes of velocity below 8 the lowest velocity

A velocity of 0 means none is given, so these notes kept that of the note before.
---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 37a97d8..d3d1a26 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -140,7 +140,7 @@ impl Track {
                                     } else {
                                         duration.length
                                     }),
-                                    Some(note_velocity / 8),
+                                    Some((note_velocity / 8).max(1)),
                                     Some(7),
                                     if push_as_tie {
                                         Command::Tie
-- 
2.43.0


From 8ac113b7ea21c767ec5ddce8a27fde29760c8a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 06/29] fix: keep voices at the MIDI time whatever the
 resolution and length

Rounding each note and rest on its own made voices drift (or the arithmetic
underflow) when the resolution is not a multiple of 24, lengths over 32512
steps lost part of their duration, notes too short for a step were written
with duration 0, and slide times were taken modulo 127. Positions are now
absolute in driver steps. The exact positions leave fewer rests that can be
folded into notes, so a note ending between two steps may end at either.
---
 src/nspc/command.rs | 18 +++++++++++
 src/nspc/track.rs   | 79 ++++++++++++++++++++++++++-------------------
 2 files changed, 63 insertions(+), 34 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 67cb123..dd6c695 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -393,6 +393,24 @@ impl ParameterizedCommand {
         false
     }
 
+    // as set_sustain, for a note that may as well end a step earlier
+    pub fn set_sustain_with_earlier_end(&mut self, next_command: &ParameterizedCommand) -> bool {
+        let mut note = self.clone();
+        let mut rest = next_command.clone();
+        match (note.duration, rest.duration) {
+            (Some(note_duration), Some(rest_duration)) if note_duration > 1 => {
+                note.duration = Some(note_duration - 1);
+                rest.duration = Some(rest_duration + 1);
+            }
+            _ => return false,
+        }
+        let set = note.set_sustain(&rest);
+        if set {
+            *self = note;
+        }
+        set
+    }
+
     pub fn create_pitch_slide(
         &self,
         slide_time: u8,
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index d3d1a26..c9bf39f 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -1,5 +1,6 @@
 use failure::Error;
 use ghakuf::messages::*;
+use std::collections::HashSet;
 use std::io::Cursor;
 
 use super::command::*;
@@ -14,8 +15,7 @@ pub struct Track {
 #[derive(Debug)]
 struct Duration {
     length: u8,
-    quantized_ticks: u32,
-    overflow_count: u8,
+    overflow_count: u32,
 }
 
 // the driver's note byte, moved by octaves into the range it can play (0x80 to 0xc7)
@@ -30,48 +30,48 @@ fn note_byte(note: u8) -> u8 {
 }
 
 impl Track {
-    fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
-        let length_beats = (ticks as f32) / (ticks_per_beat as f32);
-        let length = length_beats * 24.0;
-        let quantized_length = if ceil {
-            length.ceil() as u32
+    // the time in driver steps (1/24 beat), rounded up or down
+    fn to_steps(ticks: u32, ticks_per_beat: u16, ceil: bool) -> u32 {
+        let scaled_ticks = (ticks as u64) * 24;
+        let ticks_per_beat = ticks_per_beat as u64;
+        if ceil {
+            ((scaled_ticks + ticks_per_beat - 1) / ticks_per_beat) as u32
         } else {
-            length.floor() as u32
-        };
-        let quantized_ticks = quantized_length * (ticks_per_beat as u32) / 24;
+            (scaled_ticks / ticks_per_beat) as u32
+        }
+    }
+
+    fn get_duration(quantized_length: u32) -> Duration {
         if quantized_length > 0x7f {
             let overflow_amount = quantized_length % 0x7f;
             let overflow_count = quantized_length / 0x7f;
             if overflow_amount == 0 {
                 Duration {
                     length: 0x7f,
-                    quantized_ticks,
-                    overflow_count: (overflow_count - 1) as u8,
+                    overflow_count: overflow_count - 1,
                 }
             } else {
                 Duration {
                     length: overflow_amount as u8,
-                    quantized_ticks,
-                    overflow_count: overflow_count as u8,
+                    overflow_count,
                 }
             }
         } else {
             Duration {
                 length: quantized_length as u8,
-                quantized_ticks,
                 overflow_count: 0,
             }
         }
     }
 
+    // all positions are in driver steps from the start of the piece, so that rounding never adds up
     fn insert_rest(
         commands: &mut Vec<ParameterizedCommand>,
         last_note_end: u32,
-        abs_time: u32,
-        ticks_per_beat: u16,
+        position: u32,
     ) -> u32 {
-        if abs_time > last_note_end {
-            let duration = Track::get_duration(abs_time - last_note_end, ticks_per_beat, false);
+        if position > last_note_end {
+            let duration = Track::get_duration(position - last_note_end);
             for _ in 0..duration.overflow_count {
                 commands.push(ParameterizedCommand::new(
                     Some(0x7f),
@@ -88,7 +88,7 @@ impl Track {
                     Command::Rest,
                 ));
             }
-            last_note_end + duration.quantized_ticks
+            position
         } else {
             last_note_end
         }
@@ -105,6 +105,8 @@ impl Track {
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
         let mut last_note_end = 0u32;
+        // notes that end between two steps, where the rest after them may start a step earlier
+        let mut rounded_up = HashSet::new();
         let mut portamento = false;
         let mut port_time = 0u16;
         for &(ref message, abs_time) in events {
@@ -131,8 +133,16 @@ impl Track {
                     match *event {
                         MidiEvent::NoteOff { note, .. } => {
                             if let Some(start) = note_start {
-                                let duration =
-                                    Track::get_duration(abs_time - start, ticks_per_beat, true);
+                                let end = Track::to_steps(abs_time, ticks_per_beat, true);
+                                note_start = None;
+                                if end <= start {
+                                    // too short to be heard
+                                    if commands.last().map_or(false, |cmd| cmd.is_slide()) {
+                                        commands.pop();
+                                    }
+                                    continue;
+                                }
+                                let duration = Track::get_duration(end - start);
                                 let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
@@ -160,16 +170,17 @@ impl Track {
                                         Command::Tie,
                                     ));
                                 }
-                                last_note_end = start + duration.quantized_ticks;
-                                note_start = None;
+                                if end > Track::to_steps(abs_time, ticks_per_beat, false) {
+                                    rounded_up.insert(commands.len() - 1);
+                                }
+                                last_note_end = end;
                             }
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
                             last_note_end = Track::insert_rest(
                                 &mut commands,
                                 last_note_end,
-                                abs_time,
-                                ticks_per_beat,
+                                Track::to_steps(abs_time, ticks_per_beat, false),
                             );
                             if portamento && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
@@ -177,12 +188,13 @@ impl Track {
                                     let last_command = commands.last();
                                     pitch_slide = last_command.and_then(|cmd| {
                                         cmd.create_pitch_slide(
-                                            Track::get_duration(
+                                            Track::to_steps(
                                                 port_time as u32,
                                                 ticks_per_beat,
                                                 true,
                                             )
-                                                .length,
+                                                .max(1)
+                                                .min(0x7f) as u8,
                                             note_byte(note),
                                         )
                                     });
@@ -229,8 +241,7 @@ impl Track {
                             last_note_end = Track::insert_rest(
                                 &mut commands,
                                 last_note_end,
-                                abs_time,
-                                ticks_per_beat,
+                                Track::to_steps(abs_time, ticks_per_beat, false),
                             );
                             let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
                             commands.push(ParameterizedCommand::new(
@@ -257,9 +268,8 @@ impl Track {
         }
         let mut commands_with_sustain = Vec::new();
         if !commands.is_empty() {
-            if max_time > last_note_end {
-                Track::insert_rest(&mut commands, last_note_end, max_time, ticks_per_beat);
-            }
+            let end = Track::to_steps(max_time, ticks_per_beat, false);
+            Track::insert_rest(&mut commands, last_note_end, end);
             let mut skip_next_rest = false;
             for i in 0..commands.len() - 1 {
                 if skip_next_rest {
@@ -268,7 +278,8 @@ impl Track {
                 }
                 let next = &commands[i + 1].clone();
                 let command = &mut commands[i];
-                skip_next_rest = command.set_sustain(next);
+                skip_next_rest = command.set_sustain(next)
+                    || rounded_up.contains(&i) && command.set_sustain_with_earlier_end(next);
                 commands_with_sustain.push(command.clone());
             }
             if !skip_next_rest {
-- 
2.43.0


From 3846011bdfde2f8fde1c2f56cd050fe623aa35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 07/29] fix: count restarted and hanging notes as they are
 played when assigning voices

---
 src/midi/mod.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 509e5b2..b28275f 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -2,7 +2,7 @@ use failure::Error;
 use ghakuf::messages::*;
 use ghakuf::reader::*;
 use itertools::*;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use super::nspc::instruments::*;
 
@@ -156,36 +156,36 @@ impl MidiHandler {
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
-            let mut active_voices = 0usize;
+            let mut sounding = HashSet::new();
             for message in &channel.messages {
                 match *message {
                     (Message::MidiEvent { ref event, .. }, abs_time) => {
                         match *event {
-                            MidiEvent::NoteOff { .. } => {
+                            MidiEvent::NoteOff { note, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: sounding.len(),
                                     });
                                 }
-                                active_voices -= 1;
+                                sounding.remove(&note);
                                 last_interval_end = abs_time;
                             }
-                            MidiEvent::NoteOn { velocity, .. } => {
+                            MidiEvent::NoteOn { note, velocity, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: sounding.len(),
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices -= 1;
+                                    sounding.remove(&note);
                                 } else {
-                                    active_voices += 1;
+                                    sounding.insert(note);
                                 }
                                 last_interval_end = abs_time;
                             }
@@ -198,6 +198,15 @@ impl MidiHandler {
                     _ => {}
                 }
             }
+            if !sounding.is_empty() {
+                // notes that are never ended sound until the end of the piece
+                intervals.push(VoiceInterval {
+                    start: last_interval_end,
+                    end: u32::max_value(),
+                    channel: i,
+                    voices: sounding.len(),
+                });
+            }
         }
         let active_base_intervals = vec![
             vec![],
-- 
2.43.0


From cdd2b4ba10488780e3d570683d96e33435af985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 08/29] fix: drop notes without any length, whose end was
 sorted before their start

---
 src/midi/mod.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index b28275f..a7dea92 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -82,6 +82,23 @@ impl MidiChannel {
     }
 }
 
+// removes the last start of a note
+fn drop_note(channel: &mut MidiChannel, dropped: u8) {
+    let start = channel
+        .messages
+        .iter()
+        .rposition(|&(ref message, _)| match *message {
+            Message::MidiEvent {
+                event: MidiEvent::NoteOn { note, velocity, .. },
+                ..
+            } => note == dropped && velocity > 0,
+            _ => false,
+        });
+    if let Some(start) = start {
+        channel.messages.remove(start);
+    }
+}
+
 #[derive(Debug)]
 struct MidiVoice {
     messages: Vec<(Message, u32)>,
@@ -229,6 +246,7 @@ impl MidiHandler {
                 println!("extracting events from midi track {}", i);
             }
             let mut abs_time = 0;
+            let mut sounding = HashMap::new();
             for message in &track.messages {
                 match *message {
                     Message::MetaEvent { delta_time, .. } => {
@@ -240,6 +258,29 @@ impl MidiHandler {
                         ref event,
                     } => {
                         abs_time += delta_time;
+                        self.max_time = self.max_time.max(abs_time);
+                        match *event {
+                            MidiEvent::NoteOff { ch, note, .. }
+                            | MidiEvent::NoteOn {
+                                ch,
+                                note,
+                                velocity: 0,
+                            } => {
+                                if sounding.remove(&(ch, note)) == Some(Some(abs_time)) {
+                                    // the note has no length, and its end would be sorted before its start
+                                    drop_note(&mut self.channels[ch as usize], note);
+                                    continue;
+                                }
+                            }
+                            MidiEvent::NoteOn { ch, note, .. } => {
+                                let restarted = sounding.contains_key(&(ch, note));
+                                sounding.insert(
+                                    (ch, note),
+                                    if restarted { None } else { Some(abs_time) },
+                                );
+                            }
+                            _ => {}
+                        }
                         self.channels[channel(event)]
                             .messages
                             .push((message.clone(), abs_time));
-- 
2.43.0


From b2eb1f52b83f023075f6d9c74bd370d61ffed3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 09/29] fix: apply each channel's program and controllers to
 the voices that play its notes

---
 src/midi/mod.rs | 138 +++++++++++++++++++++---------------------------
 1 file changed, 61 insertions(+), 77 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index a7dea92..2d4f3cd 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -1,13 +1,24 @@
 use failure::Error;
 use ghakuf::messages::*;
 use ghakuf::reader::*;
-use itertools::*;
 use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use super::nspc::instruments::*;
 
 const SNARE_NOTE: u8 = 68;
 
+// the controllers that tracks react to: portamento time, volume, portamento time (low byte) and switch
+const CONTROLS: [u8; 4] = [5, 7, 37, 65];
+const INITIAL_CONTROLS: [u8; 4] = [0, 100, 0, 0];
+
+// what a channel asks for, or what a voice was last told
+#[derive(Copy, Clone, Debug)]
+struct Settings {
+    // with a flag for the percussion channel, whose programs are instruments
+    program: Option<(bool, u8)>,
+    controls: [u8; 4],
+}
+
 #[derive(Debug, Fail)]
 enum MidiError {
     #[fail(display = "{}: Couldn't fit notes into available channels", path)]
@@ -379,36 +390,18 @@ impl MidiHandler {
 
     fn channels_to_voices(&mut self, path: &Path, verbose: bool) -> Result<(), Error> {
         let channels = &self.channels;
-        let mut last_abs_time: Vec<u32> = Vec::new();
         let mut curr_event_idx: Vec<usize> = Vec::new();
-        let mut last_ctrl_change_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_ctrl_change_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
-        let mut last_percussion_instr = 0;
+        let initial_settings = Settings {
+            program: None,
+            controls: INITIAL_CONTROLS,
+        };
+        let mut channel_settings = vec![initial_settings; self.channels.len()];
+        let mut voice_settings = vec![initial_settings; self.voices.len()];
         for _ in 0..self.channels.len() {
-            last_abs_time.push(0);
             curr_event_idx.push(0);
-            last_ctrl_change_per_channel.push(None);
-            last_prog_change_per_channel.push(None);
-            last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
         }
-        for voice in 0..self.voices.len() {
-            last_ctrl_change_per_voice.push(None);
-            last_prog_change_per_voice.push(None);
-            last_pitch_bend_per_voice.push(None);
-            last_channel_per_voice.push(
-                self.channels
-                    .iter()
-                    .find_position(|ch| ch.base_voice == voice)
-                    .map(|(idx, _)| idx),
-            );
-        }
         let mut channels_done = channels
             .iter()
             .filter(|channel| channel.messages.is_empty())
@@ -521,32 +514,48 @@ impl MidiHandler {
 
                             active_notes[ch].insert(note, next_voice);
                             let messages = &mut self.voices[next_voice].messages;
-                            if ch != last_channel_per_voice[next_voice].unwrap_or(0xff) {
-                                last_ctrl_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_prog_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_channel_per_voice[next_voice] = Some(ch);
-                            };
+                            // bring the voice up to date with the channel
+                            let mut settings = channel_settings[ch];
                             if ch == 9 {
                                 let instr = if note == 38 || note == 40 { SNARE } else { CYMBAL };
-                                if last_percussion_instr != instr {
-                                    let prog_change = (
+                                settings.program = Some((true, instr));
+                            } else if settings.program.is_none()
+                                && voice_settings[next_voice].program.is_some()
+                            {
+                                settings.program = Some((false, 0));
+                            }
+                            let old_settings = voice_settings[next_voice];
+                            for (i, &control) in CONTROLS.iter().enumerate() {
+                                if settings.controls[i] != old_settings.controls[i] {
+                                    messages.push((
+                                        Message::MidiEvent {
+                                            delta_time,
+                                            event: MidiEvent::ControlChange {
+                                                ch: ch as u8,
+                                                control,
+                                                data: settings.controls[i],
+                                            },
+                                        },
+                                        abs_time,
+                                    ));
+                                }
+                            }
+                            if settings.program != old_settings.program {
+                                if let Some((_, program)) = settings.program {
+                                    messages.push((
                                         Message::MidiEvent {
                                             delta_time,
                                             event: MidiEvent::ProgramChange {
                                                 ch: ch as u8,
-                                                program: instr,
-                                            }
+                                                program,
+                                            },
                                         },
-                                        abs_time
-                                    );
-                                    last_prog_change_per_channel[ch] = Some(prog_change.0.clone());
-                                    messages.push(prog_change);
-                                    last_percussion_instr = instr;
+                                        abs_time,
+                                    ));
                                 }
+                            }
+                            voice_settings[next_voice] = settings;
+                            if ch == 9 {
                                 messages.push((Message::MidiEvent {
                                     delta_time,
                                     event: MidiEvent::NoteOn {
@@ -567,43 +576,20 @@ impl MidiHandler {
                             None => (),
                         }
                     }
-                    MidiEvent::ControlChange { ch, control, .. } => {
+                    MidiEvent::ControlChange { ch, control, data } => {
                         let ch = ch as usize;
-                        let mut pushed_to_base = false;
-                        for &voice in active_notes[ch].values() {
-                            self.voices[voice].messages.push(next_event.clone());
+                        if let Some(i) = CONTROLS.iter().position(|&c| c == control) {
+                            channel_settings[ch].controls[i] = data;
                             if control == 7 {
-                                last_ctrl_change_per_voice[voice] = Some(next_event.0.clone());
-                            }
-                            if voice == self.channels[ch].base_voice {
-                                pushed_to_base = true;
+                                for &voice in active_notes[ch].values() {
+                                    self.voices[voice].messages.push(next_event.clone());
+                                    voice_settings[voice].controls[i] = data;
+                                }
                             }
                         }
-                        if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
-                        }
-                        if control == 7 {
-                            last_ctrl_change_per_channel[ch] = Some(next_event.0.clone());
-                        }
                     }
-                    MidiEvent::ProgramChange { ch, .. } => {
-                        let ch = ch as usize;
-                        let mut pushed_to_base = false;
-                        for &voice in active_notes[ch].values() {
-                            self.voices[voice].messages.push(next_event.clone());
-                            last_prog_change_per_voice[voice] = Some(next_event.0.clone());
-                            if voice == self.channels[ch].base_voice {
-                                pushed_to_base = true;
-                            }
-                        }
-                        if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
-                        }
-                        last_prog_change_per_channel[ch] = Some(next_event.0.clone());
+                    MidiEvent::ProgramChange { ch, program } => {
+                        channel_settings[ch as usize].program = Some((false, program));
                     }
                     MidiEvent::ChannelPressure { ch, .. } => {
                         let ch = ch as usize;
@@ -625,7 +611,6 @@ impl MidiHandler {
                         let mut pushed_to_base = false;
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
-                            last_pitch_bend_per_voice[voice] = Some(next_event.0.clone());
                             if voice == self.channels[ch].base_voice {
                                 pushed_to_base = true;
                             }
@@ -635,7 +620,6 @@ impl MidiHandler {
                                 .messages
                                 .push(next_event.clone());
                         }
-                        last_pitch_bend_per_channel[ch] = Some(next_event.0.clone());
                     }
                     _ => {}
                 },
-- 
2.43.0


From 53fd7f6e06cfa38bbb85a25756cc144b328287fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 10/29] fix: apply tempo and volume changes at their time, and
 end hanging notes with the piece

---
 src/nspc/track.rs | 184 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 133 insertions(+), 51 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index c9bf39f..f3cfc5d 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -18,6 +18,17 @@ struct Duration {
     overflow_count: u32,
 }
 
+#[derive(Debug)]
+struct SoundingNote {
+    note: u8,
+    velocity: u8,
+    start: u32,
+    // reached by a slide from the note before
+    slid: bool,
+    // the part before start has been written already
+    continued: bool,
+}
+
 // the driver's note byte, moved by octaves into the range it can play (0x80 to 0xc7)
 fn note_byte(note: u8) -> u8 {
     if note < 24 {
@@ -94,6 +105,80 @@ impl Track {
         }
     }
 
+    // writes the sounding note up to the given position; the rest of it will be tied to that
+    fn write_note(
+        commands: &mut Vec<ParameterizedCommand>,
+        sounding: &mut SoundingNote,
+        position: u32,
+    ) -> u32 {
+        if position > sounding.start {
+            let duration = Track::get_duration(position - sounding.start);
+            let length = if duration.overflow_count > 0 {
+                0x7f
+            } else {
+                duration.length
+            };
+            commands.push(if sounding.continued {
+                ParameterizedCommand::new(Some(length), None, None, Command::Tie)
+            } else {
+                ParameterizedCommand::new(
+                    Some(length),
+                    Some((sounding.velocity / 8).max(1)),
+                    Some(7),
+                    if sounding.slid {
+                        Command::Tie
+                    } else {
+                        Command::Note(note_byte(sounding.note))
+                    },
+                )
+            });
+            for i in 0..duration.overflow_count {
+                commands.push(ParameterizedCommand::new(
+                    Some(if i < duration.overflow_count - 1 {
+                        0x7f
+                    } else {
+                        duration.length
+                    }),
+                    None,
+                    None,
+                    Command::Tie,
+                ));
+            }
+            sounding.start = position;
+            sounding.continued = true;
+        }
+        sounding.start
+    }
+
+    // writes whatever the voice plays up to the given position
+    fn move_to(
+        commands: &mut Vec<ParameterizedCommand>,
+        sounding: &mut Option<SoundingNote>,
+        last_note_end: u32,
+        position: u32,
+    ) -> u32 {
+        match *sounding {
+            Some(ref mut sounding) => Track::write_note(commands, sounding, position),
+            None => Track::insert_rest(commands, last_note_end, position),
+        }
+    }
+
+    // ends the sounding note at the given position, returns the actual end
+    fn end_note(
+        commands: &mut Vec<ParameterizedCommand>,
+        mut sounding: SoundingNote,
+        position: u32,
+    ) -> u32 {
+        let end = Track::write_note(commands, &mut sounding, position);
+        if sounding.slid && !sounding.continued {
+            // too short to be heard
+            if let Some(slide) = commands.iter().rposition(|cmd| cmd.is_slide()) {
+                commands.remove(slide);
+            }
+        }
+        end
+    }
+
     pub fn new(
         events: &Vec<(Message, u32)>,
         ticks_per_beat: u16,
@@ -102,8 +187,7 @@ impl Track {
         voice: usize,
     ) -> Result<Track, Error> {
         let mut commands = Vec::new();
-        let mut note_start: Option<u32> = None;
-        let mut note_velocity = 0;
+        let mut sounding: Option<SoundingNote> = None;
         let mut last_note_end = 0u32;
         // notes that end between two steps, where the rest after them may start a step earlier
         let mut rounded_up = HashSet::new();
@@ -116,67 +200,46 @@ impl Track {
                     ref data,
                     ..
                 } => {
-                    if let MetaEvent::SetTempo = *event {
+                    if *event == MetaEvent::SetTempo && data.len() == 3 {
                         let usec_per_beat = (data[0] as u32) * 0x10000
                             + (data[1] as u32) * 0x100
                             + (data[2] as u32);
                         let bpm = (6e7 / (usec_per_beat as f32)).ceil();
+                        last_note_end = Track::move_to(
+                            &mut commands,
+                            &mut sounding,
+                            last_note_end,
+                            Track::to_steps(abs_time.min(max_time), ticks_per_beat, false),
+                        );
                         commands.push(ParameterizedCommand::new(
                             None,
                             None,
                             None,
-                            Command::Tempo((bpm * tempo_factor) as u8),
+                            Command::Tempo(((bpm * tempo_factor) as u8).max(1)),
                         ))
                     }
                 }
                 Message::MidiEvent { ref event, .. } => {
                     match *event {
-                        MidiEvent::NoteOff { note, .. } => {
-                            if let Some(start) = note_start {
-                                let end = Track::to_steps(abs_time, ticks_per_beat, true);
-                                note_start = None;
-                                if end <= start {
-                                    // too short to be heard
-                                    if commands.last().map_or(false, |cmd| cmd.is_slide()) {
-                                        commands.pop();
-                                    }
-                                    continue;
-                                }
-                                let duration = Track::get_duration(end - start);
-                                let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
-                                commands.push(ParameterizedCommand::new(
-                                    Some(if duration.overflow_count > 0 {
-                                        0x7f
-                                    } else {
-                                        duration.length
-                                    }),
-                                    Some((note_velocity / 8).max(1)),
-                                    Some(7),
-                                    if push_as_tie {
-                                        Command::Tie
-                                    } else {
-                                        Command::Note(note_byte(note))
-                                    },
-                                ));
-                                for i in 0..duration.overflow_count {
-                                    commands.push(ParameterizedCommand::new(
-                                        Some(if i < duration.overflow_count - 1 {
-                                            0x7f
-                                        } else {
-                                            duration.length
-                                        }),
-                                        None,
-                                        None,
-                                        Command::Tie,
-                                    ));
-                                }
-                                if end > Track::to_steps(abs_time, ticks_per_beat, false) {
+                        MidiEvent::NoteOff { .. } => {
+                            if let Some(note) = sounding.take() {
+                                last_note_end = Track::end_note(
+                                    &mut commands,
+                                    note,
+                                    Track::to_steps(abs_time, ticks_per_beat, true),
+                                );
+                                if last_note_end > Track::to_steps(abs_time, ticks_per_beat, false)
+                                    && !commands.is_empty()
+                                {
                                     rounded_up.insert(commands.len() - 1);
                                 }
-                                last_note_end = end;
                             }
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
+                            if let Some(ref note) = sounding {
+                                bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, note.start, abs_time);
+                            }
+                            let mut slid = false;
                             last_note_end = Track::insert_rest(
                                 &mut commands,
                                 last_note_end,
@@ -199,13 +262,18 @@ impl Track {
                                         )
                                     });
                                 }
-                                pitch_slide.map(|slide| commands.push(slide));
-                            }
-                            if note_start.is_some() {
-                                bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, note_start.unwrap(), abs_time);
+                                if let Some(slide) = pitch_slide {
+                                    commands.push(slide);
+                                    slid = true;
+                                }
                             }
-                            note_start = Some(last_note_end);
-                            note_velocity = velocity;
+                            sounding = Some(SoundingNote {
+                                note,
+                                velocity,
+                                start: last_note_end,
+                                slid,
+                                continued: false,
+                            });
                         }
                         MidiEvent::PolyphonicKeyPressure { .. } => {
                             // TODO
@@ -218,6 +286,12 @@ impl Track {
                                 }
                                 7 => {
                                     // channel volume
+                                    last_note_end = Track::move_to(
+                                        &mut commands,
+                                        &mut sounding,
+                                        last_note_end,
+                                        Track::to_steps(abs_time, ticks_per_beat, false),
+                                    );
                                     commands.push(ParameterizedCommand::new(
                                         None,
                                         None,
@@ -266,6 +340,14 @@ impl Track {
                 _ => {}
             }
         }
+        if let Some(note) = sounding.take() {
+            // never ended: sounds until the end of the piece
+            last_note_end = Track::end_note(
+                &mut commands,
+                note,
+                Track::to_steps(max_time, ticks_per_beat, true),
+            );
+        }
         let mut commands_with_sustain = Vec::new();
         if !commands.is_empty() {
             let end = Track::to_steps(max_time, ticks_per_beat, false);
-- 
2.43.0


From 3986a9debdee47b5190fb51465d9a1efbc9129bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 11/29] fix: count more than 255 repeats of a sequence without
 overflow

---
 src/nspc/seqtree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 7539ff6..4807df9 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -563,7 +563,7 @@ impl SeqTree {
                 && seq
                     .locations
                     .iter()
-                    .fold(0, |acc, &loc| acc + loc.repeat_count)
+                    .fold(0, |acc, &loc| acc + loc.repeat_count as usize)
                     > 1
         })
         .max_by_key(score)
@@ -580,8 +580,9 @@ impl SeqTree {
             } else if consolidated.last().map_or(false, |loc: &Location| {
                 loc.track_idx == location.track_idx
                     && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
+                    && loc.repeat_count as usize + location.repeat_count as usize <= 255
             }) {
-                consolidated.last_mut().unwrap().repeat_count += 1;
+                consolidated.last_mut().unwrap().repeat_count += location.repeat_count;
             } else {
                 consolidated.push(location.clone());
             }
-- 
2.43.0


From 480d24e0d79932ccd31695a94247b259836c7573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 12/29] fix: keep both places of a repeated sequence when its
 edge is split

---
 src/nspc/seqtree.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 4807df9..d19f3d7 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -445,13 +445,16 @@ impl SeqTree {
                             };
                             let old_target = edge.target.take();
                             if let Some(old_target) = old_target {
+                                let old_seq_len = seq_len + edge.commands.len();
                                 for loc in &old_target.locations {
-                                    add_location(
-                                        &mut new_target.locations,
-                                        loc.track_idx,
-                                        loc.cmd_idx,
-                                        shared_seq_len,
-                                    );
+                                    for repeat in 0..loc.repeat_count as usize {
+                                        add_location(
+                                            &mut new_target.locations,
+                                            loc.track_idx,
+                                            loc.cmd_idx + repeat * old_seq_len,
+                                            shared_seq_len,
+                                        );
+                                    }
                                 }
                                 let mut old_suffix = Vec::new();
                                 old_suffix.extend_from_slice(&edge.commands[shared_prefix.len()..]);
-- 
2.43.0


From 42af7ba64528d1783d420c470edd2192f4304214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 13/29] fix: record each place of a shared sequence once

---
 src/nspc/seqtree.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index d19f3d7..f974519 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -424,20 +424,12 @@ impl SeqTree {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
                         if shared_prefix.len() == edge.commands.len() {
-                            add_location(
-                                &mut edge.target.as_mut().unwrap().locations,
+                            edge.target.as_mut().unwrap().add_commands(
+                                &commands[shared_prefix.len()..],
                                 track_idx,
                                 seq_start,
                                 shared_seq_len,
                             );
-                            if shared_prefix.len() < commands.len() {
-                                edge.target.as_mut().unwrap().add_commands(
-                                    &commands[shared_prefix.len()..],
-                                    track_idx,
-                                    seq_start,
-                                    shared_seq_len,
-                                );
-                            }
                         } else {
                             let mut new_target = SeqTree {
                                 edges: Vec::new(),
-- 
2.43.0


From 514cc486d6e6a7b11bc48072253329e571200b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 14/29] fix: point call loops of the track that opens the
 overflow chunk at their sequences

---
 src/rom/mod.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 5d034b2..7363b7d 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -276,8 +276,6 @@ fn write_bank(
         for i in 0..song_data.get_num_tracks() {
             let track_data = Vec::<u8>::new();
             let mut track_call_loops = Vec::<CallLoopRef>::new();
-            let mut pre_chunk_switch_track_call_loops = Vec::<CallLoopRef>::new();
-            let track_start_offset = track_data_offset;
             let mut cursor = Cursor::new(track_data);
             song_data.write_track(&mut cursor, i, &mut track_call_loops)?;
             let track_data = cursor.into_inner();
@@ -299,8 +297,6 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
-                pre_chunk_switch_track_call_loops.extend_from_slice(track_call_loops.as_slice());
-                track_call_loops.clear();
             };
 
             if verbose {
@@ -317,15 +313,6 @@ fn write_bank(
                     track_data.iter().cloned(),
                 );
                 track_addrs.push(aram_base_addr + track_data_offset);
-                pre_chunk_switch_track_call_loops
-                    .iter()
-                    .for_each(|call_loop| {
-                        call_loops.push(RomCallLoopRef {
-                            target_track: call_loop.target_track,
-                            chunk_base: base_chunk_addr + track_start_offset,
-                            ref_pos: call_loop.ref_pos,
-                        })
-                    });
                 track_call_loops.iter().for_each(|call_loop| {
                     call_loops.push(RomCallLoopRef {
                         target_track: call_loop.target_track,
-- 
2.43.0


From c228505771efc6777e9bc3e6b39c5405e01cbe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 15/29] fix: refuse songs that fit neither what is left of a
 bank nor its overflow chunk

---
 src/rom/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 7363b7d..5b91d79 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -172,6 +172,11 @@ fn write_bank(
         "Couldn't find overflow chunk for {} bank",
         bank.name
     );
+    ensure!(
+        first_song_addr - ARAM_BASE <= base_chunk_len,
+        "{} bank does not fit in available chunks",
+        bank.name
+    );
     let mut rom_addr = base_chunk_addr;
     let mut chunk_length = base_chunk_len;
     let mut aram_base_addr = ARAM_BASE;
@@ -209,7 +214,8 @@ fn write_bank(
         };
 
         // check if non-track data fits in chunk
-        if song_offset + (if song_def.loops { 8 } else { 4 }) + 16 > chunk_length {
+        let header_length = (if song_def.loops { 8 } else { 4 }) + 16;
+        if song_offset + header_length > chunk_length {
             ensure!(
                 aram_base_addr != aram_overflow_base,
                 "{} bank does not fit in available chunks",
@@ -225,6 +231,11 @@ fn write_bank(
             rom_addr = overflow_chunk_addr;
             chunk_length = overflow_chunk_len;
             aram_base_addr = aram_overflow_base;
+            ensure!(
+                header_length <= chunk_length,
+                "{} bank does not fit in available chunks",
+                bank.name
+            );
         };
 
         // write song address to song table
@@ -297,6 +308,11 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
+                ensure!(
+                    track_data.len() <= chunk_length,
+                    "{} bank does not fit in available chunks",
+                    bank.name
+                );
             };
 
             if verbose {
-- 
2.43.0


From 17d919ef6e9fb6d52d19198429038a1f5ee6d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 16/29] fix: write ROM files completely

---
 src/rom/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 5b91d79..7d7ddd2 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -119,7 +119,7 @@ pub fn write(
     )?;
 
     file.seek(SeekFrom::Start(0))?;
-    file.write(&romdata)?;
+    file.write_all(&romdata)?;
     songs_pb.finish_print("All songs written.");
     mb_thread.join().unwrap();
     Ok(())
@@ -467,7 +467,8 @@ pub fn gen_fake_rom(
     let mut out_file = OpenOptions::new()
         .create(true)
         .write(true)
+        .truncate(true)
         .open(output_path)?;
-    out_file.write(&out_romdata)?;
+    out_file.write_all(&out_romdata)?;
     Ok(())
 }
-- 
2.43.0


From c2608e093aa7e6ebeeac9ab68cfef1c7667a6063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 17/29] fix: convert long pieces in a reasonable time

---
 src/nspc/seqtree.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index f974519..ab8cd3c 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -325,6 +325,9 @@ mod tests {
     }
 }
 
+// keeps the tree's size and depth within reason for long tracks
+const MAX_SEQUENCE_LENGTH: usize = 256;
+
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
 pub struct Location {
     pub track_idx: usize,
@@ -351,22 +354,19 @@ pub struct Sequence {
 }
 
 fn add_location(locations: &mut Vec<Location>, track_idx: usize, cmd_idx: usize, seq_len: usize) {
-    let mut found = false;
-    {
-        let adjoining_location = locations
-            .iter_mut()
-            .find(|loc| loc.track_idx == track_idx && loc.cmd_idx + seq_len == cmd_idx);
-        if let Some(loc) = adjoining_location {
-            loc.repeat_count += 1;
-            found = true;
-        }
-    }
-    if !found {
-        locations.push(Location {
+    // the locations are kept in order
+    let adjoining_location = cmd_idx.checked_sub(seq_len).and_then(|adjoining_idx| {
+        locations
+            .binary_search_by_key(&(track_idx, adjoining_idx), |loc| (loc.track_idx, loc.cmd_idx))
+            .ok()
+    });
+    match adjoining_location {
+        Some(i) => locations[i].repeat_count += 1,
+        None => locations.push(Location {
             track_idx,
             cmd_idx,
             repeat_count: 1,
-        });
+        }),
     }
 }
 
@@ -380,7 +380,8 @@ impl SeqTree {
 
     pub fn add_track(&mut self, track: &Track, track_idx: usize) {
         for i in 0..track.commands.len() {
-            self.add_commands(&track.commands[i..track.commands.len()], track_idx, i, 0);
+            let end = track.commands.len().min(i + MAX_SEQUENCE_LENGTH);
+            self.add_commands(&track.commands[i..end], track_idx, i, 0);
         }
     }
 
@@ -438,16 +439,24 @@ impl SeqTree {
                             let old_target = edge.target.take();
                             if let Some(old_target) = old_target {
                                 let old_seq_len = seq_len + edge.commands.len();
+                                let mut places = Vec::new();
                                 for loc in &old_target.locations {
                                     for repeat in 0..loc.repeat_count as usize {
-                                        add_location(
-                                            &mut new_target.locations,
+                                        places.push((
                                             loc.track_idx,
                                             loc.cmd_idx + repeat * old_seq_len,
-                                            shared_seq_len,
-                                        );
+                                        ));
                                     }
                                 }
+                                places.sort();
+                                for (track_idx, cmd_idx) in places {
+                                    add_location(
+                                        &mut new_target.locations,
+                                        track_idx,
+                                        cmd_idx,
+                                        shared_seq_len,
+                                    );
+                                }
                                 let mut old_suffix = Vec::new();
                                 old_suffix.extend_from_slice(&edge.commands[shared_prefix.len()..]);
                                 new_target.edges.push(Edge {
-- 
2.43.0


From 874d34030aeaaf28f9de30c25286b90c0976ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 18/29] fix: refuse to write a velocity without any duration
 before it

---
 src/nspc/command.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index dd6c695..8902483 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -352,6 +352,10 @@ impl ParameterizedCommand {
         if let Some(duration) = duration_to_write {
             out.write_u8(duration)?;
         } else if velocity_sustain_to_write.is_some() {
+            ensure!(
+                prev_duration >= 1 && prev_duration <= 0x7f,
+                "Command has a velocity or sustain but no duration"
+            );
             out.write_u8(prev_duration)?;
         }
         if let Some(velocity_sustain) = velocity_sustain_to_write {
-- 
2.43.0


From 9d31d099de7e10cc315618952818be6db8ff8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 19/29] fix: report MIDI files that can't be converted instead
 of panicking

---
 src/midi/mod.rs | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 2d4f3cd..e376d9a 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -7,6 +7,9 @@ use super::nspc::instruments::*;
 
 const SNARE_NOTE: u8 = 68;
 
+// some hours, whatever the tempo
+const LONGEST_BEATS: u32 = 0xa000;
+
 // the controllers that tracks react to: portamento time, volume, portamento time (low byte) and switch
 const CONTROLS: [u8; 4] = [5, 7, 37, 65];
 const INITIAL_CONTROLS: [u8; 4] = [0, 100, 0, 0];
@@ -55,6 +58,24 @@ fn priority(message: &Message) -> u8 {
     }
 }
 
+fn later_time(time: u32, delta_time: u32, longest_time: u32) -> Result<u32, Error> {
+    match time.checked_add(delta_time) {
+        Some(time) if time <= longest_time => Ok(time),
+        _ => bail!("MIDI file is too long"),
+    }
+}
+
+fn has_valid_data(event: &MidiEvent) -> bool {
+    match *event {
+        MidiEvent::NoteOff { note, velocity, .. } | MidiEvent::NoteOn { note, velocity, .. } => {
+            note < 0x80 && velocity < 0x80
+        }
+        MidiEvent::ControlChange { data, .. } => data < 0x80,
+        MidiEvent::ProgramChange { program, .. } => program < 0x80,
+        _ => true,
+    }
+}
+
 #[derive(Debug, Copy, Clone)]
 struct VoiceInterval {
     start: u32,
@@ -128,6 +149,7 @@ pub struct MidiHandler {
     tracks: Vec<MidiTrack>,
     channels: [MidiChannel; 16],
     voices: [MidiVoice; 8],
+    format: u16,
     pub ticks_per_beat: u16,
     pub max_time: u32,
 }
@@ -164,6 +186,7 @@ impl MidiHandler {
                 MidiVoice::new(),
                 MidiVoice::new(),
             ],
+            format: 1,
             ticks_per_beat: 0,
             max_time: 0,
         }
@@ -180,7 +203,13 @@ impl MidiHandler {
                 .read()
                 .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
         }
-        self.tracks_to_channels(verbose);
+        ensure!(
+            self.format == 1,
+            "MIDI format {} is not supported",
+            self.format
+        );
+        ensure!(self.ticks_per_beat > 0, "MIDI time base is zero");
+        self.tracks_to_channels(verbose)?;
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
@@ -251,24 +280,26 @@ impl MidiHandler {
         Ok(())
     }
 
-    fn tracks_to_channels(&mut self, verbose: bool) {
+    fn tracks_to_channels(&mut self, verbose: bool) -> Result<(), Error> {
+        let longest_time = LONGEST_BEATS * self.ticks_per_beat as u32;
         for (i, track) in self.tracks.iter().enumerate() {
             if verbose {
                 println!("extracting events from midi track {}", i);
             }
-            let mut abs_time = 0;
+            let mut abs_time = 0u32;
             let mut sounding = HashMap::new();
             for message in &track.messages {
                 match *message {
                     Message::MetaEvent { delta_time, .. } => {
-                        abs_time += delta_time;
+                        abs_time = later_time(abs_time, delta_time, longest_time)?;
                         self.channels[0].messages.push((message.clone(), abs_time));
                     }
                     Message::MidiEvent {
                         delta_time,
                         ref event,
                     } => {
-                        abs_time += delta_time;
+                        abs_time = later_time(abs_time, delta_time, longest_time)?;
+                        ensure!(has_valid_data(event), "Invalid data in {:?}", event);
                         self.max_time = self.max_time.max(abs_time);
                         match *event {
                             MidiEvent::NoteOff { ch, note, .. }
@@ -297,7 +328,7 @@ impl MidiHandler {
                             .push((message.clone(), abs_time));
                     }
                     Message::SysExEvent { delta_time, .. } => {
-                        abs_time += delta_time;
+                        abs_time = later_time(abs_time, delta_time, longest_time)?;
                         self.channels[0].messages.push((message.clone(), abs_time));
                     }
                     _ => {}
@@ -309,6 +340,7 @@ impl MidiHandler {
                 .messages
                 .sort_by_key(|&(ref event, abs_time)| (abs_time, priority(event)));
         }
+        Ok(())
     }
 
     fn find_base_voices(
@@ -639,9 +671,7 @@ impl MidiHandler {
 
 impl Handler for MidiHandler {
     fn header(&mut self, format: u16, _track: u16, time_base: u16) {
-        if format != 1 {
-            unimplemented!("MIDI format {}", format)
-        }
+        self.format = format;
         self.ticks_per_beat = time_base;
     }
 
-- 
2.43.0


From e9d296abc5f4ea6b92879a94fdcbd52154e34a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 20/29] fix: report unusable JSON songs instead of panicking or
 writing streams the driver can't play

---
 src/lib.rs          |  4 ++--
 src/nspc/command.rs | 30 +++++++++++++++++++++++++
 src/nspc/mod.rs     | 55 +++++++++++++++++++++++++++++++++++++++------
 3 files changed, 80 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bd83df..d8b3976 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,7 +52,7 @@ pub fn run(matches: clap::ArgMatches) -> Result<(), Error> {
         let mut midi = midi::MidiHandler::new();
         midi.read(Path::new(input_path.unwrap()), verbose)?;
         let song = nspc::Song::from_midi(&midi, manifest::DEFAULT_TEMPO_ADJUST, optimize, verbose)?;
-        song.write_to_json(Path::new(output_path.unwrap()));
+        song.write_to_json(Path::new(output_path.unwrap()))?;
     } else if let Some(matches) = matches.subcommand_matches("gen_fake_rom") {
         let input_path = matches.value_of("INPUT");
         let output_path = matches.value_of("OUTPUT");
@@ -122,7 +122,7 @@ fn converter(optimize: bool, verbose: bool) -> Box<Fn(&Path, f32) -> Result<nspc
         if path.extension().map_or(false, |ext| ext.eq("mid")) {
             song_from_midi(path, tempo_factor, optimize, verbose)
         } else {
-            Ok(nspc::Song::from_json(path))
+            nspc::Song::from_json(path)
         }
     };
     Box::new(converter)
diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 8902483..ae758fc 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -369,6 +369,36 @@ impl ParameterizedCommand {
         Ok((duration_out, velocity_sustain_out))
     }
 
+    // checks that the driver reads the command as what it is
+    pub fn validate(&self) -> Result<(), Error> {
+        ensure!(
+            self.duration.unwrap_or(0) <= 0x7f
+                && self.velocity.unwrap_or(0) <= 0xf
+                && self.sustain.unwrap_or(0) <= 7,
+            "Command is out of range: {:?}",
+            self
+        );
+        match self.command {
+            Command::Note(note) => ensure!(
+                note >= 0x80 && note <= 0xdf && note != 0xc8 && note != 0xc9,
+                "Note is out of range: {:?}",
+                self
+            ),
+            Command::CallLoop(_, count) => {
+                ensure!(count > 0, "Loop is never played: {:?}", self)
+            }
+            _ => {}
+        }
+        Ok(())
+    }
+
+    pub fn call_loop_target(&self) -> Option<usize> {
+        match self.command {
+            Command::CallLoop(target, _) => Some(target),
+            _ => None,
+        }
+    }
+
     pub fn call_loop_eligible(&self) -> bool {
         match self.command {
             Command::CallLoop(..) => false,
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 63c0ad5..eeff812 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -156,14 +156,55 @@ impl Song {
         new_tracks
     }
 
-    pub fn from_json(path: &Path) -> Song {
-        let file = File::open(path).unwrap();
-        serde_json::from_reader(file).unwrap()
+    pub fn from_json(path: &Path) -> Result<Song, Error> {
+        let file = File::open(path)?;
+        let song: Song = serde_json::from_reader(file)?;
+        song.validate()?;
+        Ok(song)
     }
 
-    pub fn write_to_json(&self, path: &Path) {
-        let out = File::create(path).unwrap();
-        serde_json::to_writer_pretty(out, self).unwrap()
+    // checks that the song can be written, and that the driver can play what is written
+    fn validate(&self) -> Result<(), Error> {
+        let part = match self.parts.first() {
+            Some(part) => part,
+            None => bail!("Song has no parts"),
+        };
+        ensure!(part.tracks.len() <= 8, "Part has more than 8 tracks");
+        for part in &self.parts {
+            for &track_idx in &part.tracks {
+                ensure!(
+                    track_idx < self.tracks.len(),
+                    "Part has track {}, which doesn't exist",
+                    track_idx
+                );
+            }
+        }
+        for track in &self.tracks {
+            for command in &track.commands {
+                command.validate()?;
+                if let Some(target_idx) = command.call_loop_target() {
+                    match self.tracks.get(target_idx) {
+                        None => bail!("Loop calls track {}, which doesn't exist", target_idx),
+                        Some(target) => ensure!(
+                            !target.commands.is_empty()
+                                && target
+                                    .commands
+                                    .iter()
+                                    .all(|command| command.call_loop_target().is_none()),
+                            "Loop calls track {}, which is empty or calls loops itself",
+                            target_idx
+                        ),
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
+    pub fn write_to_json(&self, path: &Path) -> Result<(), Error> {
+        let out = File::create(path)?;
+        serde_json::to_writer_pretty(out, self)?;
+        Ok(())
     }
 
     pub fn empty() -> Result<Song, Error> {
@@ -189,7 +230,7 @@ impl Song {
     ) -> Result<(), Error> {
         let track = &self.tracks[track_idx];
         if !track.commands.is_empty() {
-            if self.parts.iter().any(|part| part.tracks[0] == track_idx) {
+            if self.parts.iter().any(|part| part.tracks.first() == Some(&track_idx)) {
                 out.write(&PREAMBLE_TRACK_0)?;
             } else if self
                 .parts
-- 
2.43.0


From a0637da0b54bc4ab07f0265c5f2ce8b7fc55dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 21/29] fix: report manifest entries without an input instead
 of panicking

---
 src/manifest/mod.rs | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/manifest/mod.rs b/src/manifest/mod.rs
index 42b5853..027fbf1 100644
--- a/src/manifest/mod.rs
+++ b/src/manifest/mod.rs
@@ -51,21 +51,24 @@ pub struct Song {
 }
 
 impl Song {
-    pub fn new(input: &Value, base_path: &Path) -> Song {
-        let path = Path::new(input["input"].as_str().unwrap());
+    pub fn new(input: &Value, base_path: &Path) -> Result<Song, Error> {
+        let path = match input["input"].as_str() {
+            Some(path) => Path::new(path),
+            None => bail!("Manifest has no input for a song"),
+        };
         let path_buf;
         if path.is_absolute() {
             path_buf = path.to_path_buf();
         } else {
             path_buf = base_path.join(path).to_path_buf();
         }
-        Song {
+        Ok(Song {
             input: Some(path_buf),
             tempo_factor: input["tempoAdjust"]
                 .as_f64()
                 .unwrap_or(DEFAULT_TEMPO_ADJUST as f64) as f32,
             loops: input["loop"].as_bool().unwrap_or(true),
-        }
+        })
     }
 
     pub fn default(path: &Path) -> Song {
@@ -92,14 +95,23 @@ pub struct Bank {
 }
 
 impl Bank {
-    pub fn new(input: &Value, name: &'static str, song_names: &[&str], base_path: &Path) -> Bank {
-        Bank {
+    pub fn new(
+        input: &Value,
+        name: &'static str,
+        song_names: &[&str],
+        base_path: &Path,
+    ) -> Result<Bank, Error> {
+        let songs: Result<Vec<Song>, Error> = song_names
+            .iter()
+            .map(|&song_name| {
+                Song::new(&input[song_name], base_path)
+                    .map_err(|err| format_err!("{}: {} in {} bank", err, song_name, name))
+            })
+            .collect();
+        Ok(Bank {
             name,
-            songs: song_names
-                .iter()
-                .map(|&song_name| Song::new(&input[song_name], base_path))
-                .collect(),
-        }
+            songs: songs?,
+        })
     }
 }
 
@@ -112,12 +124,12 @@ impl Manifest {
     pub fn new(path: &Path) -> Result<Manifest, Error> {
         let reader = File::open(path)?;
         let json: Value = serde_json::from_reader(reader)?;
-        let parent = path.parent().unwrap();
+        let parent = path.parent().unwrap_or(path);
         Ok(Manifest {
             banks: [
-                Bank::new(&json["overworld"], "overworld", &OVERWORLD_SONGS, parent),
-                Bank::new(&json["indoor"], "indoor", &INDOOR_SONGS, parent),
-                Bank::new(&json["ending"], "ending", &ENDING_SONGS, parent),
+                Bank::new(&json["overworld"], "overworld", &OVERWORLD_SONGS, parent)?,
+                Bank::new(&json["indoor"], "indoor", &INDOOR_SONGS, parent)?,
+                Bank::new(&json["ending"], "ending", &ENDING_SONGS, parent)?,
             ],
         })
     }
-- 
2.43.0


From 2ad3f588b68a3a11a1185dea1b3e93f1356e2508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 22/29] fix: accept any file name in messages

---
 src/midi/mod.rs |  4 ++--
 src/rom/mod.rs  | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index e376d9a..dfc67c2 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -398,7 +398,7 @@ impl MidiHandler {
             }
         }
         Err(Error::from(MidiError::CouldntFit {
-            path: path.to_str().unwrap().to_owned(),
+            path: path.to_string_lossy().into_owned(),
         }))
     }
 
@@ -541,7 +541,7 @@ impl MidiHandler {
                                 next_voice = Some(base_voice);
                             }
                             let next_voice = next_voice.ok_or(MidiError::CouldntFit {
-                                path: path.to_str().unwrap().to_owned(),
+                                path: path.to_string_lossy().into_owned(),
                             })?;
 
                             active_notes[ch].insert(note, next_voice);
diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 7d7ddd2..f7a73e0 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -27,6 +27,13 @@ fn addr_to_bytes(addr: usize) -> (u8, u8) {
     ((addr >> 8 & 0xFF) as u8, (addr & 0xFF) as u8)
 }
 
+fn display_name(path: &Path) -> String {
+    path.file_name()
+        .unwrap_or(path.as_os_str())
+        .to_string_lossy()
+        .into_owned()
+}
+
 struct RomCallLoopRef {
     pub target_track: usize,
     pub chunk_base: usize,
@@ -196,7 +203,7 @@ fn write_bank(
 
     for song_def in &bank.songs {
         bank_pb.message(&match &song_def.input {
-            Some(path) => format!("{} ", path.file_name().unwrap().to_str().unwrap()),
+            Some(path) => format!("{} ", display_name(path)),
             None => "[empty song] ".to_string(),
         });
         bank_pb.set(
@@ -383,8 +390,8 @@ fn write_bank(
             println!(
                 "{} - total track size in current bank 0x{:X}",
                 match &song_def.input {
-                    Some(path) => path.file_name().unwrap().to_str().unwrap(),
-                    None => "[empty song]",
+                    Some(path) => display_name(path),
+                    None => "[empty song]".to_string(),
                 },
                 if track_data_offset > song_offset {
                     track_data_offset - song_offset
-- 
2.43.0


From 7881861547dd8e5a221f1a02701e27360490e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 23/29] fix: report ROMs that are cut off instead of panicking

---
 src/rom/mod.rs | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index f7a73e0..2b8f4db 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -23,6 +23,13 @@ fn snes_bytes_to_pc_addr(bank: u8, high: u8, low: u8) -> usize {
     snes_to_pc_addr(((bank as u32) << 16) + ((high as u32) << 8) + (low as u32))
 }
 
+fn byte_at(romdata: &Vec<u8>, addr: usize) -> Result<u8, Error> {
+    romdata
+        .get(addr)
+        .cloned()
+        .ok_or_else(|| format_err!("ROM has no data at 0x{:X}", addr))
+}
+
 fn addr_to_bytes(addr: usize) -> (u8, u8) {
     ((addr >> 8 & 0xFF) as u8, (addr & 0xFF) as u8)
 }
@@ -47,16 +54,17 @@ struct Chunk {
 }
 
 impl Chunk {
-    fn load(romdata: &Vec<u8>, start_addr: usize) -> Chunk {
-        let length = ((romdata[start_addr + 1] as usize) << 8) + (romdata[start_addr] as usize);
-        let aram_addr =
-            ((romdata[start_addr + 3] as usize) << 8) + (romdata[start_addr + 2] as usize);
+    fn load(romdata: &Vec<u8>, start_addr: usize) -> Result<Chunk, Error> {
+        let length = ((byte_at(romdata, start_addr + 1)? as usize) << 8)
+            + (byte_at(romdata, start_addr)? as usize);
+        let aram_addr = ((byte_at(romdata, start_addr + 3)? as usize) << 8)
+            + (byte_at(romdata, start_addr + 2)? as usize);
         let offset_addr = start_addr + 4;
-        Chunk {
+        Ok(Chunk {
             offset_addr,
             length,
             aram_addr,
-        }
+        })
     }
 
     fn write_header(&self, romdata: &mut Vec<u8>, start_addr: usize) {
@@ -144,9 +152,9 @@ fn write_bank(
     verbose: bool,
 ) -> Result<(), Error> {
     // find chunk going to ARAM D000
-    let bank_addr = romdata[snes_to_pc_addr(base_addr + 8)];
-    let high_addr = romdata[snes_to_pc_addr(base_addr + 4)];
-    let low_addr = romdata[snes_to_pc_addr(base_addr)];
+    let bank_addr = byte_at(romdata, snes_to_pc_addr(base_addr.saturating_add(8)))?;
+    let high_addr = byte_at(romdata, snes_to_pc_addr(base_addr.saturating_add(4)))?;
+    let low_addr = byte_at(romdata, snes_to_pc_addr(base_addr))?;
     let mut addr = snes_bytes_to_pc_addr(bank_addr, high_addr, low_addr);
     let mut last_chunk_length = 0xffffusize;
     let mut base_chunk_addr = 0;
@@ -155,13 +163,13 @@ fn write_bank(
     let mut overflow_chunk_len = 0;
     let mut aram_overflow_base = 0;
     while last_chunk_length != 0 {
-        let chunk = Chunk::load(&romdata, addr);
+        let chunk = Chunk::load(&romdata, addr)?;
         last_chunk_length = chunk.length;
         if chunk.aram_addr == ARAM_BASE {
             base_chunk_addr = chunk.offset_addr;
             base_chunk_len = chunk.length;
             addr = chunk.offset_addr + chunk.length;
-            let chunk = Chunk::load(&romdata, addr);
+            let chunk = Chunk::load(&romdata, addr)?;
             last_chunk_length = chunk.length;
             overflow_chunk_addr = chunk.offset_addr;
             overflow_chunk_len = chunk.length;
@@ -184,6 +192,12 @@ fn write_bank(
         "{} bank does not fit in available chunks",
         bank.name
     );
+    ensure!(
+        base_chunk_addr + base_chunk_len <= romdata.len()
+            && overflow_chunk_addr + overflow_chunk_len <= romdata.len(),
+        "{} bank is not completely in the ROM",
+        bank.name
+    );
     let mut rom_addr = base_chunk_addr;
     let mut chunk_length = base_chunk_len;
     let mut aram_base_addr = ARAM_BASE;
@@ -454,9 +468,9 @@ pub fn gen_fake_rom(
     let mut out_romdata = vec![0u8; romdata.len()];
 
     for &base_addr in bank_base_addrs.iter() {
-        let bank_addr = romdata[snes_to_pc_addr(base_addr + 8)];
-        let high_addr = romdata[snes_to_pc_addr(base_addr + 4)];
-        let low_addr = romdata[snes_to_pc_addr(base_addr)];
+        let bank_addr = byte_at(&romdata, snes_to_pc_addr(base_addr.saturating_add(8)))?;
+        let high_addr = byte_at(&romdata, snes_to_pc_addr(base_addr.saturating_add(4)))?;
+        let low_addr = byte_at(&romdata, snes_to_pc_addr(base_addr))?;
         out_romdata[snes_to_pc_addr(base_addr + 8)] = bank_addr;
         out_romdata[snes_to_pc_addr(base_addr + 4)] = high_addr;
         out_romdata[snes_to_pc_addr(base_addr)] = low_addr;
@@ -464,7 +478,7 @@ pub fn gen_fake_rom(
         let mut addr = snes_bytes_to_pc_addr(bank_addr, high_addr, low_addr);
         let mut last_chunk_length = 0xffffusize;
         while last_chunk_length != 0 {
-            let chunk = Chunk::load(&romdata, addr);
+            let chunk = Chunk::load(&romdata, addr)?;
             chunk.write_header(&mut out_romdata, addr);
             last_chunk_length = chunk.length;
             addr = chunk.offset_addr + chunk.length;
-- 
2.43.0


From a1c6f35a5cfe24409cd24d68bbee1557c169c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 24/29] fix: build ROMs whatever becomes of the progress
 display

---
 src/rom/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 2b8f4db..8d0ee4e 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -3,6 +3,7 @@ extern crate pbr;
 use self::pbr::*;
 use failure::Error;
 use std::fs::OpenOptions;
+use std::io;
 use std::io::prelude::*;
 use std::io::{Cursor, SeekFrom};
 use std::path::Path;
@@ -41,6 +42,21 @@ fn display_name(path: &Path) -> String {
         .into_owned()
 }
 
+// shows the progress where that is possible
+struct ProgressOutput;
+
+impl Write for ProgressOutput {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        let _ = io::stdout().write_all(buf);
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        let _ = io::stdout().flush();
+        Ok(())
+    }
+}
+
 struct RomCallLoopRef {
     pub target_track: usize,
     pub chunk_base: usize,
@@ -90,7 +106,7 @@ pub fn write(
         .banks
         .iter()
         .fold(0, |acc, bank| acc + bank.songs.len());
-    let mut mb = MultiBar::new();
+    let mut mb = MultiBar::on(ProgressOutput);
     let mut songs_pb = mb.create_bar(num_songs as u64);
     let mut bank_pbs = manifest
         .banks
-- 
2.43.0


From 32b65f27346ad1eae39b19cb3c7bacf0d35c59f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 25/29] fix: decide in bounded time whether a piece fits the
 voices

---
 src/midi/mod.rs | 128 ++++++++++++++++++++++++++----------------------
 1 file changed, 69 insertions(+), 59 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index dfc67c2..0318aa1 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -84,6 +84,24 @@ struct VoiceInterval {
     voices: usize,
 }
 
+// whether there are that many channels that all conflict with each other
+fn has_clique(conflicts: &Vec<Vec<bool>>, size: usize) -> bool {
+    fn extend(conflicts: &Vec<Vec<bool>>, candidates: &[usize], size: usize) -> bool {
+        size == 0
+            || candidates.len() >= size
+                && candidates.iter().enumerate().any(|(i, &channel)| {
+                    let candidates = candidates[i + 1..]
+                        .iter()
+                        .cloned()
+                        .filter(|&other| conflicts[channel][other])
+                        .collect::<Vec<usize>>();
+                    extend(conflicts, &candidates, size - 1)
+                })
+    }
+    let channels = (0..conflicts.len()).collect::<Vec<usize>>();
+    extend(conflicts, &channels, size)
+}
+
 #[derive(Debug)]
 struct MidiTrack {
     messages: Vec<Message>,
@@ -265,17 +283,15 @@ impl MidiHandler {
                 });
             }
         }
-        let active_base_intervals = vec![
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-        ];
-        self.find_base_voices(0, &active_base_intervals, path, verbose)?;
+        let conflicts = self.find_conflicts();
+        let mut assigned = vec![Vec::new(); self.voices.len()];
+        ensure!(
+            !has_clique(&conflicts, self.voices.len() + 1)
+                && self.find_base_voices(0, &conflicts, &mut assigned, verbose),
+            MidiError::CouldntFit {
+                path: path.to_string_lossy().into_owned(),
+            }
+        );
         self.channels_to_voices(path, verbose)?;
         Ok(())
     }
@@ -343,69 +359,63 @@ impl MidiHandler {
         Ok(())
     }
 
+    // for each channel, which channels have notes that overlap with its notes
+    fn find_conflicts(&self) -> Vec<Vec<bool>> {
+        self.channels
+            .iter()
+            .map(|channel| {
+                self.channels
+                    .iter()
+                    .map(|other| {
+                        MidiHandler::overlapping_interval(&channel.intervals, &other.intervals)
+                    })
+                    .collect()
+            })
+            .collect()
+    }
+
     fn find_base_voices(
         &mut self,
         channel_idx: usize,
-        active_base_intervals: &Vec<Vec<VoiceInterval>>,
-        path: &Path,
+        conflicts: &Vec<Vec<bool>>,
+        assigned: &mut Vec<Vec<usize>>,
         verbose: bool,
-    ) -> Result<(), Error> {
+    ) -> bool {
         if channel_idx == self.channels.len() {
-            return Ok(());
+            return true;
         }
-        if verbose {
-            println!("find base voice for channel {}", channel_idx);
+        if self.channels[channel_idx].intervals.is_empty() {
+            // any voice will do
+            return self.find_base_voices(channel_idx + 1, conflicts, assigned, verbose);
         }
-        let mut valid_voices = vec![];
-        let mut found_empty = false;
-        for i in 0..8 {
-            let empty = active_base_intervals[i].is_empty();
-            if !found_empty || !empty {
-                match MidiHandler::overlapping_interval(
-                    &self.channels[channel_idx].intervals,
-                    &active_base_intervals[i],
-                ) {
-                    Some(interval) => {
-                        if verbose {
-                            println!("voice {} overlaps with {:?}", i, interval);
-                        }
-                    }
-                    None => {
-                        valid_voices.push(i);
-                        if empty {
-                            found_empty = true;
-                        }
-                    }
+        for voice in 0..assigned.len() {
+            let empty = assigned[voice].is_empty();
+            if !assigned[voice]
+                .iter()
+                .any(|&other| conflicts[channel_idx][other])
+            {
+                if verbose {
+                    println!("channel {}: trying {}", channel_idx, voice);
                 }
-            }
-        }
-        if verbose {
-            println!("non-overlapping voices: {:?}", valid_voices);
-        }
-        for voice in valid_voices {
-            if verbose {
-                println!("channel {}: trying {}", channel_idx, voice);
-            }
-            let mut active_base_intervals = active_base_intervals.clone();
-            active_base_intervals[voice]
-                .extend_from_slice(self.channels[channel_idx].intervals.as_slice());
-            match self.find_base_voices(channel_idx + 1, &active_base_intervals, path, verbose) {
-                Ok(_) => {
+                assigned[voice].push(channel_idx);
+                if self.find_base_voices(channel_idx + 1, conflicts, assigned, verbose) {
                     self.channels[channel_idx].base_voice = voice;
-                    return Ok(());
+                    return true;
                 }
-                Err(_) => (),
+                assigned[voice].pop();
+            }
+            if empty {
+                // all further voices are as empty as this one
+                break;
             }
         }
-        Err(Error::from(MidiError::CouldntFit {
-            path: path.to_string_lossy().into_owned(),
-        }))
+        false
     }
 
     fn overlapping_interval(
         channel: &Vec<VoiceInterval>,
         active_intervals: &Vec<VoiceInterval>,
-    ) -> Option<VoiceInterval> {
+    ) -> bool {
         for interval in channel {
             for existing_interval in active_intervals {
                 if interval.voices > 0
@@ -413,11 +423,11 @@ impl MidiHandler {
                     && interval.end > existing_interval.start
                     && interval.start < existing_interval.end
                 {
-                    return Some(existing_interval.clone());
+                    return true;
                 }
             }
         }
-        None
+        false
     }
 
     fn channels_to_voices(&mut self, path: &Path, verbose: bool) -> Result<(), Error> {
-- 
2.43.0


From 2852322088e8b740715b82135622628db13f7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 26/29] fix: report arguments that aren't UTF-8 instead of
 panicking

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 5dc5da6..705ef0a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -43,6 +43,7 @@ fn main() -> Result<(), Error> {
             (@arg OUTPUT: +required "the output file to use")
         )
     )
+    .global_setting(clap::AppSettings::StrictUtf8)
     .get_matches();
     midi2spc::run(matches)
 }
-- 
2.43.0


From 91cbed0cdde1b3a33724619216ea5760ea16c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 27/29] fix: report MIDI files whose tracks can't all be read

The reader takes a track tag that lies across the end of its buffer for the
end of the file, and a file that is cut off between two tracks for a complete
one; the remaining tracks were dropped without a word.
---
 src/midi/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 0318aa1..e4accda 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -168,6 +168,7 @@ pub struct MidiHandler {
     channels: [MidiChannel; 16],
     voices: [MidiVoice; 8],
     format: u16,
+    num_tracks: u16,
     pub ticks_per_beat: u16,
     pub max_time: u32,
 }
@@ -205,6 +206,7 @@ impl MidiHandler {
                 MidiVoice::new(),
             ],
             format: 1,
+            num_tracks: 0,
             ticks_per_beat: 0,
             max_time: 0,
         }
@@ -227,6 +229,14 @@ impl MidiHandler {
             self.format
         );
         ensure!(self.ticks_per_beat > 0, "MIDI time base is zero");
+        // the reader takes a file that is cut off between tracks for a complete one
+        ensure!(
+            self.tracks.len() >= self.num_tracks as usize,
+            "Only {} of the {} tracks in {} could be read",
+            self.tracks.len(),
+            self.num_tracks,
+            path.display()
+        );
         self.tracks_to_channels(verbose)?;
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
@@ -680,8 +690,9 @@ impl MidiHandler {
 }
 
 impl Handler for MidiHandler {
-    fn header(&mut self, format: u16, _track: u16, time_base: u16) {
+    fn header(&mut self, format: u16, track: u16, time_base: u16) {
         self.format = format;
+        self.num_tracks = track;
         self.ticks_per_beat = time_base;
     }
 
-- 
2.43.0


From 1fb93c5da806f3cf848edbaf1fd0e37c45fccc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 28/29] fix: don't panic when standard output can't be written

---
 src/lib.rs      | 18 +++++++++++++-----
 src/midi/mod.rs | 10 +++++-----
 src/nspc/mod.rs |  2 +-
 src/rom/mod.rs  | 18 +++++++++---------
 4 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d8b3976..69be110 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,9 +12,18 @@ extern crate serde_derive;
 
 use clap::ArgMatches;
 use failure::Error;
+use std::io::{self, Write};
 use std::num::ParseIntError;
 use std::path::Path;
 
+// prints a message, if there is anything to print it to
+macro_rules! report {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(::std::io::stdout(), $($arg)*);
+    }};
+}
+
 pub mod manifest;
 pub mod midi;
 pub mod nspc;
@@ -41,11 +50,10 @@ pub fn run(matches: clap::ArgMatches) -> Result<(), Error> {
     } else if let Some(matches) = matches.subcommand_matches("dump_midi") {
         let input_path = matches.value_of("INPUT");
         let mut midi = midi::MidiHandler::new();
-        midi.read(Path::new(input_path.unwrap()), verbose)
-            .unwrap_or_else(|err| {
-                println!("Error reading MIDI: {:?}", err);
-            });
-        println!("{:#?}", midi);
+        if let Err(err) = midi.read(Path::new(input_path.unwrap()), verbose) {
+            writeln!(io::stdout(), "Error reading MIDI: {:?}", err)?;
+        }
+        writeln!(io::stdout(), "{:#?}", midi)?;
     } else if let Some(matches) = matches.subcommand_matches("midi2json") {
         let input_path = matches.value_of("INPUT");
         let output_path = matches.value_of("OUTPUT");
diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index e4accda..20da2ab 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -214,7 +214,7 @@ impl MidiHandler {
 
     pub fn read(&mut self, path: &Path, verbose: bool) -> Result<(), Error> {
         if verbose {
-            println!("reading {:?}", path);
+            report!("reading {:?}", path);
         }
         {
             let mut midi_reader =
@@ -310,7 +310,7 @@ impl MidiHandler {
         let longest_time = LONGEST_BEATS * self.ticks_per_beat as u32;
         for (i, track) in self.tracks.iter().enumerate() {
             if verbose {
-                println!("extracting events from midi track {}", i);
+                report!("extracting events from midi track {}", i);
             }
             let mut abs_time = 0u32;
             let mut sounding = HashMap::new();
@@ -405,7 +405,7 @@ impl MidiHandler {
                 .any(|&other| conflicts[channel_idx][other])
             {
                 if verbose {
-                    println!("channel {}: trying {}", channel_idx, voice);
+                    report!("channel {}: trying {}", channel_idx, voice);
                 }
                 assigned[voice].push(channel_idx);
                 if self.find_base_voices(channel_idx + 1, conflicts, assigned, verbose) {
@@ -533,7 +533,7 @@ impl MidiHandler {
                                 .any(|&voice| voice == base_voice)
                             {
                                 if verbose {
-                                    println!("channel {} base voice occupied at {} - base voices {:?} active notes {:?}",
+                                    report!("channel {} base voice occupied at {} - base voices {:?} active notes {:?}",
                                              ch,
                                              abs_time,
                                              self.channels.iter().map(|channel| channel.base_voice).collect::<Vec<usize>>(),
@@ -551,7 +551,7 @@ impl MidiHandler {
                                             .any(|&voice| voice == possible_voice)
                                     {
                                         if verbose {
-                                            println!("using {}", possible_voice);
+                                            report!("using {}", possible_voice);
                                         }
                                         next_voice = Some(possible_voice);
                                         break;
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index eeff812..801e179 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -102,7 +102,7 @@ impl Song {
         }
         let best_sequence = seqtree.best_sequence();
         if verbose {
-            println!("optimal call loop sequence {:?}", best_sequence);
+            report!("optimal call loop sequence {:?}", best_sequence);
         };
         match best_sequence {
             None => tracks,
diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 8d0ee4e..0bb554f 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -219,7 +219,7 @@ fn write_bank(
     let mut aram_base_addr = ARAM_BASE;
 
     if verbose {
-        println!(
+        report!(
             "Writing {} bank to 0x{:X} starting at song {}.  Available chunk length is 0x{:X}",
             bank.name, rom_addr, first_song, chunk_length
         );
@@ -259,7 +259,7 @@ fn write_bank(
                 bank.name
             );
             if verbose {
-                println!(
+                report!(
                     "Switching to overflow chunk - data size before switch 0x{:X}",
                     chunk_length - song_offset
                 );
@@ -277,7 +277,7 @@ fn write_bank(
 
         // write song address to song table
         if verbose {
-            println!(
+            report!(
                 "Writing song address 0x{:X} (0x{:X}) to song table at 0x{:X}",
                 rom_addr + song_offset,
                 aram_base_addr + song_offset,
@@ -336,7 +336,7 @@ fn write_bank(
                     bank.name
                 );
                 if verbose {
-                    println!(
+                    report!(
                         "Switching to overflow chunk - data size before switch 0x{:X}",
                         chunk_length - song_offset
                     );
@@ -353,7 +353,7 @@ fn write_bank(
             };
 
             if verbose {
-                println!(
+                report!(
                     "Writing track to 0x{:X} (0x{:X})",
                     rom_addr + track_data_offset,
                     aram_base_addr + track_data_offset
@@ -381,7 +381,7 @@ fn write_bank(
 
         // part data
         if verbose {
-            println!(
+            report!(
                 "Writing part data to 0x{:X} (0x{:X})",
                 part_data_rom_addr, part_data_aram_addr
             );
@@ -392,7 +392,7 @@ fn write_bank(
         }
         song_data.get_part_tracks(0).iter().for_each(|&track_idx| {
             if verbose {
-                println!(
+                report!(
                     "Writing track address 0x{:X} to part data at 0x{:X}",
                     track_addrs[track_idx], part_data_addr
                 );
@@ -406,7 +406,7 @@ fn write_bank(
         call_loops.iter().for_each(|call_loop| {
             let call_loop_addr = call_loop.chunk_base + (call_loop.ref_pos as usize);
             if verbose {
-                println!(
+                report!(
                     "Writing loop address 0x{:X} to CallLoop instruction at 0x{:X}",
                     track_addrs[call_loop.target_track], call_loop_addr
                 );
@@ -417,7 +417,7 @@ fn write_bank(
         });
 
         if verbose {
-            println!(
+            report!(
                 "{} - total track size in current bank 0x{:X}",
                 match &song_def.input {
                     Some(path) => display_name(path),
-- 
2.43.0


From 6202ae2276796a09e0eb9a09dea9dd82d077bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:38 +0000
Subject: [PATCH 29/29] fix: refuse MIDI files whose time base is in seconds

---
 src/midi/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 20da2ab..011418c 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -229,6 +229,10 @@ impl MidiHandler {
             self.format
         );
         ensure!(self.ticks_per_beat > 0, "MIDI time base is zero");
+        ensure!(
+            self.ticks_per_beat < 0x8000,
+            "MIDI time base is in seconds instead of beats"
+        );
         // the reader takes a file that is cut off between tracks for a complete one
         ensure!(
             self.tracks.len() >= self.num_tracks as usize,
-- 
2.43.0

