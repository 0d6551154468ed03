From 1ab238ea9177304c7d7bf1e9ff5ed4ae32d87399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 01/43] fix: don't merge a note and a rest into a duration that
 can't be encoded

---
 src/nspc/command.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3aecdb0..863ed90 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -374,7 +374,11 @@ impl ParameterizedCommand {
                 let note_duration = self.duration.unwrap() as u16;
                 let rest_duration = next_command.duration.unwrap() as u16;
                 let total_duration = note_duration + rest_duration;
-                if (note_duration * 8) % total_duration == 0 || note_duration > rest_duration * 16 {
+                // durations above 0x7f can't be encoded
+                if total_duration <= 0x7f
+                    && ((note_duration * 8) % total_duration == 0
+                        || note_duration > rest_duration * 16)
+                {
                     let sustain = ((note_duration * 8) / total_duration) as u8;
                     self.sustain = Some(sustain.min(7));
                     self.duration = Some(total_duration as u8);
-- 
2.43.0


From 14851f6043887b17f6a505619b0e9359d55b06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 02/43] fix: don't count a repeated sequence's location twice

---
 src/nspc/seqtree.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 7539ff6..5ecc9b0 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -424,20 +424,12 @@ impl SeqTree {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
                         if shared_prefix.len() == edge.commands.len() {
-                            add_location(
-                                &mut edge.target.as_mut().unwrap().locations,
+                            edge.target.as_mut().unwrap().add_commands(
+                                &commands[shared_prefix.len()..],
                                 track_idx,
                                 seq_start,
                                 shared_seq_len,
                             );
-                            if shared_prefix.len() < commands.len() {
-                                edge.target.as_mut().unwrap().add_commands(
-                                    &commands[shared_prefix.len()..],
-                                    track_idx,
-                                    seq_start,
-                                    shared_seq_len,
-                                );
-                            }
                         } else {
                             let mut new_target = SeqTree {
                                 edges: Vec::new(),
-- 
2.43.0


From 135991fdb4e33c35283872b34b15ca07812b861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 03/43] fix: account for the duration and velocity a loop call
 leaves behind

---
 src/nspc/command.rs |  7 +++++++
 src/nspc/mod.rs     |  2 +-
 src/nspc/track.rs   | 18 ++++++++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 863ed90..e345f0b 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -360,6 +360,13 @@ impl ParameterizedCommand {
         Ok((duration_out, velocity_sustain_out))
     }
 
+    pub fn call_loop_target(&self) -> Option<usize> {
+        match self.command {
+            Command::CallLoop(target, _) => Some(target),
+            _ => None,
+        }
+    }
+
     pub fn call_loop_eligible(&self) -> bool {
         match self.command {
             Command::CallLoop(..) => false,
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 63c0ad5..24febf6 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -198,7 +198,7 @@ impl Song {
             {
                 out.write(&PREAMBLE_OTHER_TRACK)?;
             }
-            track.write(out, call_loops)?;
+            track.write(out, call_loops, &self.tracks)?;
             out.write_u8(0x00)?;
         }
         Ok(())
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 84e9434..0f9b439 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -273,6 +273,7 @@ impl Track {
         &self,
         out: &mut Cursor<Vec<u8>>,
         call_loops: &mut Vec<CallLoopRef>,
+        all_tracks: &[Track],
     ) -> Result<(), Error> {
         let mut duration = 0xff;
         let mut velocity = None;
@@ -280,7 +281,24 @@ impl Track {
             let (duration_out, velocity_out) = cmd.write(out, duration, velocity, call_loops)?;
             duration = duration_out;
             velocity = velocity_out;
+            if let Some(called) = cmd.call_loop_target().and_then(|idx| all_tracks.get(idx)) {
+                // the called track leaves its own duration and velocity behind
+                let (duration_called, velocity_called) = called.end_state()?;
+                duration = duration_called;
+                velocity = velocity_called;
+            }
         }
         Ok(())
     }
+
+    // duration and velocity in force after the commands of this track
+    fn end_state(&self) -> Result<(u8, Option<u8>), Error> {
+        let mut out = Cursor::new(Vec::new());
+        self.commands
+            .iter()
+            .fold(Ok((0xff, None)), |state: Result<_, Error>, cmd| {
+                let (duration, velocity) = state?;
+                cmd.write(&mut out, duration, velocity, &mut Vec::new())
+            })
+    }
 }
-- 
2.43.0


From 6dd650218a6f7e96e7cdb1623147aacb2477fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 04/43] fix: channel volume fade takes two parameters

---
 src/nspc/command.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index e345f0b..7288244 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -109,7 +109,7 @@ pub enum Command {
     Tremolo(u8, u8, u8),
     TremoloOff,
     ChannelVolume(u8),
-    ChannelVolumeFade(u8),
+    ChannelVolumeFade(u8, u8),
     CallLoop(usize, u8),
     VibratoFade(u8),
     PitchEnvelopeTo(u8, u8, u8),
@@ -201,9 +201,10 @@ impl Command {
                 out.write_u8(0xed)?;
                 out.write_u8(p1)?;
             }
-            Command::ChannelVolumeFade(p1) => {
+            Command::ChannelVolumeFade(p1, p2) => {
                 out.write_u8(0xee)?;
                 out.write_u8(p1)?;
+                out.write_u8(p2)?;
             }
             Command::CallLoop(p1, p2) => {
                 out.write_u8(0xef)?;
-- 
2.43.0


From 8d96268ab2d92da6c9b6a4d80dacce12f102789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 05/43] fix: report incomplete writes of the output ROM

---
 src/rom/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 5d034b2..afd686d 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -119,7 +119,7 @@ pub fn write(
     )?;
 
     file.seek(SeekFrom::Start(0))?;
-    file.write(&romdata)?;
+    file.write_all(&romdata)?;
     songs_pb.finish_print("All songs written.");
     mb_thread.join().unwrap();
     Ok(())
@@ -465,6 +465,6 @@ pub fn gen_fake_rom(
         .create(true)
         .write(true)
         .open(output_path)?;
-    out_file.write(&out_romdata)?;
+    out_file.write_all(&out_romdata)?;
     Ok(())
 }
-- 
2.43.0


From 328b8ba1bf9155979272802fe833ee85c567fead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 06/43] fix: don't leave old data behind a generated fake ROM

---
 src/rom/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index afd686d..619a4a0 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -464,6 +464,7 @@ pub fn gen_fake_rom(
     let mut out_file = OpenOptions::new()
         .create(true)
         .write(true)
+        .truncate(true)
         .open(output_path)?;
     out_file.write_all(&out_romdata)?;
     Ok(())
-- 
2.43.0


From dd11e2309295ae8a2d0926aa0ad6dcb2e46967e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 07/43] fix: total repeat count of a sequence may exceed 255

---
 src/nspc/seqtree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 5ecc9b0..1a8ed99 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -555,7 +555,7 @@ impl SeqTree {
                 && seq
                     .locations
                     .iter()
-                    .fold(0, |acc, &loc| acc + loc.repeat_count)
+                    .fold(0, |acc, &loc| acc + loc.repeat_count as usize)
                     > 1
         })
         .max_by_key(score)
-- 
2.43.0


From 410d9e48d17a7414097126696987edca9a5a67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 08/43] fix: patch loop addresses where the track was written

---
 src/rom/mod.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 619a4a0..ed14a5f 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -276,8 +276,6 @@ fn write_bank(
         for i in 0..song_data.get_num_tracks() {
             let track_data = Vec::<u8>::new();
             let mut track_call_loops = Vec::<CallLoopRef>::new();
-            let mut pre_chunk_switch_track_call_loops = Vec::<CallLoopRef>::new();
-            let track_start_offset = track_data_offset;
             let mut cursor = Cursor::new(track_data);
             song_data.write_track(&mut cursor, i, &mut track_call_loops)?;
             let track_data = cursor.into_inner();
@@ -299,8 +297,6 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
-                pre_chunk_switch_track_call_loops.extend_from_slice(track_call_loops.as_slice());
-                track_call_loops.clear();
             };
 
             if verbose {
@@ -317,15 +313,6 @@ fn write_bank(
                     track_data.iter().cloned(),
                 );
                 track_addrs.push(aram_base_addr + track_data_offset);
-                pre_chunk_switch_track_call_loops
-                    .iter()
-                    .for_each(|call_loop| {
-                        call_loops.push(RomCallLoopRef {
-                            target_track: call_loop.target_track,
-                            chunk_base: base_chunk_addr + track_start_offset,
-                            ref_pos: call_loop.ref_pos,
-                        })
-                    });
                 track_call_loops.iter().for_each(|call_loop| {
                     call_loops.push(RomCallLoopRef {
                         target_track: call_loop.target_track,
-- 
2.43.0


From 94fe2d5826123d66182cd42b35dd4e9c63d78ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 09/43] fix: check that data also fits in the overflow chunk

---
 src/rom/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index ed14a5f..d62c5ee 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -209,7 +209,8 @@ fn write_bank(
         };
 
         // check if non-track data fits in chunk
-        if song_offset + (if song_def.loops { 8 } else { 4 }) + 16 > chunk_length {
+        let header_length = (if song_def.loops { 8 } else { 4 }) + 16;
+        if song_offset + header_length > chunk_length {
             ensure!(
                 aram_base_addr != aram_overflow_base,
                 "{} bank does not fit in available chunks",
@@ -225,6 +226,11 @@ fn write_bank(
             rom_addr = overflow_chunk_addr;
             chunk_length = overflow_chunk_len;
             aram_base_addr = aram_overflow_base;
+            ensure!(
+                header_length <= chunk_length,
+                "{} bank does not fit in available chunks",
+                bank.name
+            );
         };
 
         // write song address to song table
@@ -297,6 +303,11 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
+                ensure!(
+                    track_data.len() <= chunk_length,
+                    "{} bank does not fit in available chunks",
+                    bank.name
+                );
             };
 
             if verbose {
-- 
2.43.0


From 9ec301cbdfb30a4011d361de6f2a82d1c7eb673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 10/43] fix: don't underflow on note-offs without a sounding
 note

---
 src/midi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 509e5b2..50979a0 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -170,7 +170,7 @@ impl MidiHandler {
                                         voices: active_voices,
                                     });
                                 }
-                                active_voices -= 1;
+                                active_voices = active_voices.saturating_sub(1);
                                 last_interval_end = abs_time;
                             }
                             MidiEvent::NoteOn { velocity, .. } => {
@@ -183,7 +183,7 @@ impl MidiHandler {
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices -= 1;
+                                    active_voices = active_voices.saturating_sub(1);
                                 } else {
                                     active_voices += 1;
                                 }
-- 
2.43.0


From c7cbda8fddb86292e70742a498b20f57bc53ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 11/43] fix: end restruck snare notes at the snare pitch

---
 src/midi/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 50979a0..cf5356a 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -422,7 +422,11 @@ impl MidiHandler {
                                     delta_time,
                                     event: MidiEvent::NoteOff {
                                         ch: ch as u8,
-                                        note,
+                                        note: if ch == 9 && (note == 38 || note == 40) {
+                                            SNARE_NOTE
+                                        } else {
+                                            note
+                                        },
                                         velocity,
                                     },
                                 },
-- 
2.43.0


From 36ec0c1a624fc7241ee2a3d2d326144b411b8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 12/43] fix: don't cut notes and rests longer than 255 commands

---
 src/nspc/track.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 0f9b439..1317dd0 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -15,7 +15,7 @@ pub struct Track {
 struct Duration {
     length: u8,
     quantized_ticks: u32,
-    overflow_count: u8,
+    overflow_count: u32,
 }
 
 impl Track {
@@ -35,13 +35,13 @@ impl Track {
                 Duration {
                     length: 0x7f,
                     quantized_ticks,
-                    overflow_count: (overflow_count - 1) as u8,
+                    overflow_count: overflow_count - 1,
                 }
             } else {
                 Duration {
                     length: overflow_amount as u8,
                     quantized_ticks,
-                    overflow_count: overflow_count as u8,
+                    overflow_count,
                 }
             }
         } else {
-- 
2.43.0


From 479c8afcf82129fe17b99d16ec06f34773df918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 13/43] fix: give very quiet notes the lowest velocity instead
 of none

---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 1317dd0..ce15d14 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -129,7 +129,7 @@ impl Track {
                                     } else {
                                         duration.length
                                     }),
-                                    Some(note_velocity / 8),
+                                    Some((note_velocity / 8).max(1)),
                                     Some(7),
                                     if push_as_tie {
                                         Command::Tie
-- 
2.43.0


From 7c4376af11ba9ae6106719723bb536125eb9c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 14/43] fix: keep notes within the range of the sound driver

---
 src/nspc/track.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index ce15d14..48c9e9c 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -18,6 +18,18 @@ struct Duration {
     overflow_count: u32,
 }
 
+// moves notes outside of the range of the sound driver by whole octaves
+fn note_value(note: u8) -> u8 {
+    let note = if note < 24 {
+        note % 12 + 24
+    } else if note > 95 {
+        note % 12 + 84
+    } else {
+        note
+    };
+    note + 0x68
+}
+
 impl Track {
     fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
         let length_beats = (ticks as f32) / (ticks_per_beat as f32);
@@ -134,7 +146,7 @@ impl Track {
                                     if push_as_tie {
                                         Command::Tie
                                     } else {
-                                        Command::Note(note + 0x68)
+                                        Command::Note(note_value(note))
                                     },
                                 ));
                                 for i in 0..duration.overflow_count {
@@ -172,7 +184,7 @@ impl Track {
                                                 true,
                                             )
                                                 .length,
-                                            note + 0x68,
+                                            note_value(note),
                                         )
                                     });
                                 }
-- 
2.43.0


From 322c3c4d526089c2f2597f0718fe659ef10f069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 15/43] fix: don't insert a rest for a program change during a
 note

---
 src/nspc/track.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 48c9e9c..cbca9de 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -227,12 +227,14 @@ impl Track {
                             // TODO
                         }
                         MidiEvent::ProgramChange { ch, program, .. } => {
-                            last_note_end = Track::insert_rest(
-                                &mut commands,
-                                last_note_end,
-                                abs_time,
-                                ticks_per_beat,
-                            );
+                            if note_start.is_none() {
+                                last_note_end = Track::insert_rest(
+                                    &mut commands,
+                                    last_note_end,
+                                    abs_time,
+                                    ticks_per_beat,
+                                );
+                            }
                             let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
                             commands.push(ParameterizedCommand::new(
                                 None,
-- 
2.43.0


From 54eea3f658797072685b247dc0ffe79c4060eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 16/43] fix: don't move tempo changes to the end of the
 previous note

---
 src/nspc/track.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index cbca9de..9e03e34 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -119,6 +119,14 @@ impl Track {
                         let usec_per_beat = (data[0] as u32) * 0x10000
                             + (data[1] as u32) * 0x100
                             + (data[2] as u32);
+                        if note_start.is_none() {
+                            last_note_end = Track::insert_rest(
+                                &mut commands,
+                                last_note_end,
+                                abs_time.min(max_time),
+                                ticks_per_beat,
+                            );
+                        }
                         let bpm = (6e7 / (usec_per_beat as f32)).ceil();
                         commands.push(ParameterizedCommand::new(
                             None,
-- 
2.43.0


From 8c844939d32f1f989e98caf4dc41813fde351c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 17/43] fix: don't underflow on notes shorter than a driver
 tick

---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 9e03e34..ffe4405 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -141,7 +141,7 @@ impl Track {
                         MidiEvent::NoteOff { note, .. } => {
                             if let Some(start) = note_start {
                                 let duration =
-                                    Track::get_duration(abs_time - start, ticks_per_beat, true);
+                                    Track::get_duration(abs_time.saturating_sub(start).max(1), ticks_per_beat, true);
                                 let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
-- 
2.43.0


From e621f70aed5b363ee7b3e6069ba844a0034b1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 18/43] fix: play every note with its own channel's instrument
 and volume

---
 src/midi/mod.rs | 135 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 89 insertions(+), 46 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index cf5356a..60e3311 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -44,6 +44,51 @@ fn priority(message: &Message) -> u8 {
     }
 }
 
+fn is_active(active_notes: &Vec<HashMap<u8, usize>>, voice: usize) -> bool {
+    active_notes
+        .iter()
+        .flat_map(|active_note| active_note.values())
+        .any(|&active_voice| active_voice == voice)
+}
+
+fn same_setting(first: &Message, second: &Message) -> bool {
+    match (first, second) {
+        (
+            Message::MidiEvent { event: first, .. },
+            Message::MidiEvent { event: second, .. },
+        ) => match (first, second) {
+            (
+                MidiEvent::ProgramChange { ch: ch1, program: program1 },
+                MidiEvent::ProgramChange { ch: ch2, program: program2 },
+            ) => program1 == program2 && (*ch1 == 9) == (*ch2 == 9),
+            (
+                MidiEvent::ControlChange { control: control1, data: data1, .. },
+                MidiEvent::ControlChange { control: control2, data: data2, .. },
+            ) => control1 == control2 && data1 == data2,
+            _ => first == second,
+        },
+        _ => false,
+    }
+}
+
+// makes a voice use the setting of the channel that plays a note on it
+fn update_voice(
+    messages: &mut Vec<(Message, u32)>,
+    voice_setting: &mut Option<Message>,
+    channel_setting: &Option<Message>,
+    abs_time: u32,
+) {
+    if let Some(setting) = channel_setting {
+        if !voice_setting
+            .as_ref()
+            .map_or(false, |current| same_setting(current, setting))
+        {
+            messages.push((setting.clone(), abs_time));
+            *voice_setting = Some(setting.clone());
+        }
+    }
+}
+
 #[derive(Debug, Copy, Clone)]
 struct VoiceInterval {
     start: u32,
@@ -337,9 +382,7 @@ impl MidiHandler {
         let mut last_ctrl_change_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_prog_change_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
-        let mut last_percussion_instr = 0;
         for _ in 0..self.channels.len() {
             last_abs_time.push(0);
             curr_event_idx.push(0);
@@ -348,16 +391,10 @@ impl MidiHandler {
             last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
         }
-        for voice in 0..self.voices.len() {
+        for _ in 0..self.voices.len() {
             last_ctrl_change_per_voice.push(None);
             last_prog_change_per_voice.push(None);
             last_pitch_bend_per_voice.push(None);
-            last_channel_per_voice.push(
-                self.channels
-                    .iter()
-                    .find_position(|ch| ch.base_voice == voice)
-                    .map(|(idx, _)| idx),
-            );
         }
         let mut channels_done = channels
             .iter()
@@ -475,32 +512,34 @@ impl MidiHandler {
 
                             active_notes[ch].insert(note, next_voice);
                             let messages = &mut self.voices[next_voice].messages;
-                            if ch != last_channel_per_voice[next_voice].unwrap_or(0xff) {
-                                last_ctrl_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_prog_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_channel_per_voice[next_voice] = Some(ch);
-                            };
                             if ch == 9 {
-                                let instr = if note == 38 || note == 40 { SNARE } else { CYMBAL };
-                                if last_percussion_instr != instr {
-                                    let prog_change = (
-                                        Message::MidiEvent {
-                                            delta_time,
-                                            event: MidiEvent::ProgramChange {
-                                                ch: ch as u8,
-                                                program: instr,
-                                            }
-                                        },
-                                        abs_time
-                                    );
-                                    last_prog_change_per_channel[ch] = Some(prog_change.0.clone());
-                                    messages.push(prog_change);
-                                    last_percussion_instr = instr;
-                                }
+                                last_prog_change_per_channel[ch] = Some(Message::MidiEvent {
+                                    delta_time,
+                                    event: MidiEvent::ProgramChange {
+                                        ch: ch as u8,
+                                        program: if note == 38 || note == 40 { SNARE } else { CYMBAL },
+                                    },
+                                });
+                            }
+                            update_voice(
+                                messages,
+                                &mut last_ctrl_change_per_voice[next_voice],
+                                &last_ctrl_change_per_channel[ch],
+                                abs_time,
+                            );
+                            update_voice(
+                                messages,
+                                &mut last_prog_change_per_voice[next_voice],
+                                &last_prog_change_per_channel[ch],
+                                abs_time,
+                            );
+                            update_voice(
+                                messages,
+                                &mut last_pitch_bend_per_voice[next_voice],
+                                &last_pitch_bend_per_channel[ch],
+                                abs_time,
+                            );
+                            if ch == 9 {
                                 messages.push((Message::MidiEvent {
                                     delta_time,
                                     event: MidiEvent::NoteOn {
@@ -533,15 +572,19 @@ impl MidiHandler {
                                 pushed_to_base = true;
                             }
                         }
-                        if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
+                        let base_voice = self.channels[ch].base_voice;
+                        if !pushed_to_base && (control != 7 || !is_active(&active_notes, base_voice)) {
+                            self.voices[base_voice].messages.push(next_event.clone());
+                            if control == 7 {
+                                last_ctrl_change_per_voice[base_voice] = Some(next_event.0.clone());
+                            }
                         }
                         if control == 7 {
                             last_ctrl_change_per_channel[ch] = Some(next_event.0.clone());
                         }
                     }
+                    // the sounds of the percussion channel are selected by note
+                    MidiEvent::ProgramChange { ch: 9, .. } => {}
                     MidiEvent::ProgramChange { ch, .. } => {
                         let ch = ch as usize;
                         let mut pushed_to_base = false;
@@ -552,10 +595,10 @@ impl MidiHandler {
                                 pushed_to_base = true;
                             }
                         }
-                        if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
+                        let base_voice = self.channels[ch].base_voice;
+                        if !pushed_to_base && !is_active(&active_notes, base_voice) {
+                            self.voices[base_voice].messages.push(next_event.clone());
+                            last_prog_change_per_voice[base_voice] = Some(next_event.0.clone());
                         }
                         last_prog_change_per_channel[ch] = Some(next_event.0.clone());
                     }
@@ -584,10 +627,10 @@ impl MidiHandler {
                                 pushed_to_base = true;
                             }
                         }
-                        if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
+                        let base_voice = self.channels[ch].base_voice;
+                        if !pushed_to_base && !is_active(&active_notes, base_voice) {
+                            self.voices[base_voice].messages.push(next_event.clone());
+                            last_pitch_bend_per_voice[base_voice] = Some(next_event.0.clone());
                         }
                         last_pitch_bend_per_channel[ch] = Some(next_event.0.clone());
                     }
-- 
2.43.0


From 770cd0250970e678d2a32166a95a3c29503ffd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 19/43] fix: calculate note lengths without floating point
 rounding

---
 src/nspc/track.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index ffe4405..2189d75 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -32,14 +32,13 @@ fn note_value(note: u8) -> u8 {
 
 impl Track {
     fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
-        let length_beats = (ticks as f32) / (ticks_per_beat as f32);
-        let length = length_beats * 24.0;
+        let ticks_per_beat = ticks_per_beat as u64;
         let quantized_length = if ceil {
-            length.ceil() as u32
+            ((ticks as u64 * 24 + ticks_per_beat - 1) / ticks_per_beat) as u32
         } else {
-            length.floor() as u32
+            (ticks as u64 * 24 / ticks_per_beat) as u32
         };
-        let quantized_ticks = quantized_length * (ticks_per_beat as u32) / 24;
+        let quantized_ticks = (quantized_length as u64 * ticks_per_beat / 24) as u32;
         if quantized_length > 0x7f {
             let overflow_amount = quantized_length % 0x7f;
             let overflow_count = quantized_length / 0x7f;
-- 
2.43.0


From b470c52b0391f617c9099c30a83a22572d009a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 20/43] fix: continue a pitch slide without a new attack after
 other events

---
 src/nspc/track.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 2189d75..df1a874 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -107,6 +107,7 @@ impl Track {
         let mut last_note_end = 0u32;
         let mut portamento = false;
         let mut port_time = 0u16;
+        let mut sliding = false;
         for &(ref message, abs_time) in events {
             match *message {
                 Message::MetaEvent {
@@ -141,7 +142,6 @@ impl Track {
                             if let Some(start) = note_start {
                                 let duration =
                                     Track::get_duration(abs_time.saturating_sub(start).max(1), ticks_per_beat, true);
-                                let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
                                         0x7f
@@ -150,7 +150,7 @@ impl Track {
                                     }),
                                     Some((note_velocity / 8).max(1)),
                                     Some(7),
-                                    if push_as_tie {
+                                    if sliding {
                                         Command::Tie
                                     } else {
                                         Command::Note(note_value(note))
@@ -195,7 +195,10 @@ impl Track {
                                         )
                                     });
                                 }
+                                sliding = pitch_slide.is_some();
                                 pitch_slide.map(|slide| commands.push(slide));
+                            } else {
+                                sliding = false;
                             }
                             if note_start.is_some() {
                                 bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, note_start.unwrap(), abs_time);
-- 
2.43.0


From 55a33528706aa70135a0b9843f41f19ed3274a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 21/43] fix: don't let rounding errors of note times add up

---
 src/nspc/track.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index df1a874..3abdeda 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -31,7 +31,7 @@ fn note_value(note: u8) -> u8 {
 }
 
 impl Track {
-    fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
+    fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool, drift: &mut u64) -> Duration {
         let ticks_per_beat = ticks_per_beat as u64;
         let quantized_length = if ceil {
             ((ticks as u64 * 24 + ticks_per_beat - 1) / ticks_per_beat) as u32
@@ -39,6 +39,12 @@ impl Track {
             (ticks as u64 * 24 / ticks_per_beat) as u32
         };
         let quantized_ticks = (quantized_length as u64 * ticks_per_beat / 24) as u32;
+        // the part of a MIDI tick lost here must not add up (in 24ths of a MIDI tick)
+        *drift += quantized_length as u64 * ticks_per_beat % 24;
+        let min_length = if ceil { 1 } else { 0 };
+        let correction = (*drift / ticks_per_beat).min((quantized_length as u64).saturating_sub(min_length));
+        *drift -= correction * ticks_per_beat;
+        let quantized_length = quantized_length - correction as u32;
         if quantized_length > 0x7f {
             let overflow_amount = quantized_length % 0x7f;
             let overflow_count = quantized_length / 0x7f;
@@ -69,9 +75,10 @@ impl Track {
         last_note_end: u32,
         abs_time: u32,
         ticks_per_beat: u16,
+        drift: &mut u64,
     ) -> u32 {
         if abs_time > last_note_end {
-            let duration = Track::get_duration(abs_time - last_note_end, ticks_per_beat, false);
+            let duration = Track::get_duration(abs_time - last_note_end, ticks_per_beat, false, drift);
             for _ in 0..duration.overflow_count {
                 commands.push(ParameterizedCommand::new(
                     Some(0x7f),
@@ -108,6 +115,7 @@ impl Track {
         let mut portamento = false;
         let mut port_time = 0u16;
         let mut sliding = false;
+        let mut drift = 0u64;
         for &(ref message, abs_time) in events {
             match *message {
                 Message::MetaEvent {
@@ -125,6 +133,7 @@ impl Track {
                                 last_note_end,
                                 abs_time.min(max_time),
                                 ticks_per_beat,
+                                &mut drift,
                             );
                         }
                         let bpm = (6e7 / (usec_per_beat as f32)).ceil();
@@ -141,7 +150,7 @@ impl Track {
                         MidiEvent::NoteOff { note, .. } => {
                             if let Some(start) = note_start {
                                 let duration =
-                                    Track::get_duration(abs_time.saturating_sub(start).max(1), ticks_per_beat, true);
+                                    Track::get_duration(abs_time.saturating_sub(start).max(1), ticks_per_beat, true, &mut drift);
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
                                         0x7f
@@ -178,6 +187,7 @@ impl Track {
                                 last_note_end,
                                 abs_time,
                                 ticks_per_beat,
+                                &mut drift,
                             );
                             if portamento && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
@@ -189,6 +199,7 @@ impl Track {
                                                 port_time as u32,
                                                 ticks_per_beat,
                                                 true,
+                                                &mut 0,
                                             )
                                                 .length,
                                             note_value(note),
@@ -243,6 +254,7 @@ impl Track {
                                     last_note_end,
                                     abs_time,
                                     ticks_per_beat,
+                                    &mut drift,
                                 );
                             }
                             let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
@@ -271,7 +283,7 @@ impl Track {
         let mut commands_with_sustain = Vec::new();
         if !commands.is_empty() {
             if max_time > last_note_end {
-                Track::insert_rest(&mut commands, last_note_end, max_time, ticks_per_beat);
+                Track::insert_rest(&mut commands, last_note_end, max_time, ticks_per_beat, &mut drift);
             }
             let mut skip_next_rest = false;
             for i in 0..commands.len() - 1 {
-- 
2.43.0


From 42ad5ff6d63a97e81fde21447a2bed0da82754a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 22/43] fix: don't shorten portamento times of more than 127
 driver ticks

---
 src/nspc/track.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 3abdeda..1daebc5 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -194,14 +194,18 @@ impl Track {
                                 {
                                     let last_command = commands.last();
                                     pitch_slide = last_command.and_then(|cmd| {
+                                        let slide_time = Track::get_duration(
+                                            port_time as u32,
+                                            ticks_per_beat,
+                                            true,
+                                            &mut 0,
+                                        );
                                         cmd.create_pitch_slide(
-                                            Track::get_duration(
-                                                port_time as u32,
-                                                ticks_per_beat,
-                                                true,
-                                                &mut 0,
-                                            )
-                                                .length,
+                                            if slide_time.overflow_count > 0 {
+                                                0x7f
+                                            } else {
+                                                slide_time.length
+                                            },
                                             note_value(note),
                                         )
                                     });
-- 
2.43.0


From 882e533e074f01cda96abbafe7a83813f0350444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 23/43] fix: count sounding notes by pitch when looking for
 shared voices

---
 src/midi/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 60e3311..5e1786a 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -2,7 +2,7 @@ use failure::Error;
 use ghakuf::messages::*;
 use ghakuf::reader::*;
 use itertools::*;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use super::nspc::instruments::*;
 
@@ -201,36 +201,36 @@ impl MidiHandler {
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
-            let mut active_voices = 0usize;
+            let mut active_notes = HashSet::new();
             for message in &channel.messages {
                 match *message {
                     (Message::MidiEvent { ref event, .. }, abs_time) => {
                         match *event {
-                            MidiEvent::NoteOff { .. } => {
+                            MidiEvent::NoteOff { note, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_notes.len(),
                                     });
                                 }
-                                active_voices = active_voices.saturating_sub(1);
+                                active_notes.remove(&note);
                                 last_interval_end = abs_time;
                             }
-                            MidiEvent::NoteOn { velocity, .. } => {
+                            MidiEvent::NoteOn { note, velocity, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_notes.len(),
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices = active_voices.saturating_sub(1);
+                                    active_notes.remove(&note);
                                 } else {
-                                    active_voices += 1;
+                                    active_notes.insert(note);
                                 }
                                 last_interval_end = abs_time;
                             }
-- 
2.43.0


From 4c7ec1b9ead679d4c686248b5cffcf6e71a11014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 24/43] fix: keep the portamento settings of channels sharing
 voices apart

---
 src/midi/mod.rs   |  8 ++++++++
 src/nspc/track.rs | 21 ++++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 5e1786a..095014f 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -560,6 +560,14 @@ impl MidiHandler {
                             None => (),
                         }
                     }
+                    // portamento applies to the channel's notes on every voice
+                    MidiEvent::ControlChange { control: 5, .. }
+                    | MidiEvent::ControlChange { control: 37, .. }
+                    | MidiEvent::ControlChange { control: 65, .. } => {
+                        for voice in &mut self.voices {
+                            voice.messages.push(next_event.clone());
+                        }
+                    }
                     MidiEvent::ControlChange { ch, control, .. } => {
                         let ch = ch as usize;
                         let mut pushed_to_base = false;
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 1daebc5..1822483 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -112,8 +112,9 @@ impl Track {
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
         let mut last_note_end = 0u32;
-        let mut portamento = false;
-        let mut port_time = 0u16;
+        // channels sharing a voice have their own portamento settings
+        let mut portamento = [false; 16];
+        let mut port_time = [0u16; 16];
         let mut sliding = false;
         let mut drift = 0u64;
         for &(ref message, abs_time) in events {
@@ -181,7 +182,8 @@ impl Track {
                                 note_start = None;
                             }
                         }
-                        MidiEvent::NoteOn { velocity, note, .. } => {
+                        MidiEvent::NoteOn { ch, velocity, note } => {
+                            let ch = ch as usize;
                             last_note_end = Track::insert_rest(
                                 &mut commands,
                                 last_note_end,
@@ -189,13 +191,13 @@ impl Track {
                                 ticks_per_beat,
                                 &mut drift,
                             );
-                            if portamento && !commands.is_empty() {
+                            if portamento[ch] && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
                                 {
                                     let last_command = commands.last();
                                     pitch_slide = last_command.and_then(|cmd| {
                                         let slide_time = Track::get_duration(
-                                            port_time as u32,
+                                            port_time[ch] as u32,
                                             ticks_per_beat,
                                             true,
                                             &mut 0,
@@ -224,11 +226,12 @@ impl Track {
                         MidiEvent::PolyphonicKeyPressure { .. } => {
                             // TODO
                         }
-                        MidiEvent::ControlChange { control, data, .. } => {
+                        MidiEvent::ControlChange { ch, control, data } => {
+                            let ch = ch as usize;
                             match control {
                                 5 => {
                                     // portamento time high byte
-                                    port_time = ((data as u16) << 8) | (port_time & 0xFF);
+                                    port_time[ch] = ((data as u16) << 8) | (port_time[ch] & 0xFF);
                                 }
                                 7 => {
                                     // channel volume
@@ -241,11 +244,11 @@ impl Track {
                                 }
                                 37 => {
                                     // portamento time low byte
-                                    port_time = (port_time & 0xFF00) | (data as u16);
+                                    port_time[ch] = (port_time[ch] & 0xFF00) | (data as u16);
                                 }
                                 65 => {
                                     // portamento on/off
-                                    portamento = data >= 64;
+                                    portamento[ch] = data >= 64;
                                 }
                                 _ => {}
                             }
-- 
2.43.0


From a0b3975be0b2a114ac2ab007fff222792ec3ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 25/43] fix: refuse a main chunk too small for the song table

---
 src/rom/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index d62c5ee..cc7c7f8 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -172,6 +172,12 @@ fn write_bank(
         "Couldn't find overflow chunk for {} bank",
         bank.name
     );
+    // the song table has to fit in front of the songs
+    ensure!(
+        first_song_addr - ARAM_BASE <= base_chunk_len,
+        "{} bank does not fit in available chunks",
+        bank.name
+    );
     let mut rom_addr = base_chunk_addr;
     let mut chunk_length = base_chunk_len;
     let mut aram_base_addr = ARAM_BASE;
-- 
2.43.0


From 19dba6b7ddd47d8c7ed07368d938f2bc3d626483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 26/43] fix: don't search for base voices from equivalent
 states again and again

---
 src/midi/mod.rs | 84 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 61 insertions(+), 23 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 095014f..55ce96c 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -244,17 +244,28 @@ impl MidiHandler {
                 }
             }
         }
-        let active_base_intervals = vec![
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-        ];
-        self.find_base_voices(0, &active_base_intervals, path, verbose)?;
+        // for every channel, the channels it can't share a voice with
+        let conflicts = self
+            .channels
+            .iter()
+            .map(|channel| {
+                self.channels
+                    .iter()
+                    .map(|other| {
+                        MidiHandler::overlapping_interval(&channel.intervals, &other.intervals)
+                            .is_some()
+                    })
+                    .collect()
+            })
+            .collect();
+        self.find_base_voices(
+            0,
+            &vec![vec![]; 8],
+            &conflicts,
+            &mut HashSet::new(),
+            path,
+            verbose,
+        )?;
         self.channels_to_voices(path, verbose)?;
         Ok(())
     }
@@ -298,28 +309,46 @@ impl MidiHandler {
     fn find_base_voices(
         &mut self,
         channel_idx: usize,
-        active_base_intervals: &Vec<Vec<VoiceInterval>>,
+        voice_channels: &Vec<Vec<usize>>,
+        conflicts: &Vec<Vec<bool>>,
+        impossible: &mut HashSet<Vec<Vec<usize>>>,
         path: &Path,
         verbose: bool,
     ) -> Result<(), Error> {
         if channel_idx == self.channels.len() {
             return Ok(());
         }
+        // all that matters for the remaining channels is which of them each voice is closed to
+        let mut closed_to: Vec<Vec<usize>> = voice_channels
+            .iter()
+            .map(|channels| {
+                (channel_idx..self.channels.len())
+                    .filter(|&remaining| channels.iter().any(|&other| conflicts[remaining][other]))
+                    .collect()
+            })
+            .collect();
+        closed_to.sort();
+        closed_to.push(vec![channel_idx]);
+        if impossible.contains(&closed_to) {
+            return Err(Error::from(MidiError::CouldntFit {
+                path: path.to_str().unwrap().to_owned(),
+            }));
+        }
         if verbose {
             println!("find base voice for channel {}", channel_idx);
         }
         let mut valid_voices = vec![];
         let mut found_empty = false;
         for i in 0..8 {
-            let empty = active_base_intervals[i].is_empty();
+            let empty = voice_channels[i].is_empty();
             if !found_empty || !empty {
-                match MidiHandler::overlapping_interval(
-                    &self.channels[channel_idx].intervals,
-                    &active_base_intervals[i],
-                ) {
-                    Some(interval) => {
+                match voice_channels[i]
+                    .iter()
+                    .find(|&&other| conflicts[channel_idx][other])
+                {
+                    Some(other) => {
                         if verbose {
-                            println!("voice {} overlaps with {:?}", i, interval);
+                            println!("voice {} overlaps with channel {}", i, other);
                         }
                     }
                     None => {
@@ -338,10 +367,18 @@ impl MidiHandler {
             if verbose {
                 println!("channel {}: trying {}", channel_idx, voice);
             }
-            let mut active_base_intervals = active_base_intervals.clone();
-            active_base_intervals[voice]
-                .extend_from_slice(self.channels[channel_idx].intervals.as_slice());
-            match self.find_base_voices(channel_idx + 1, &active_base_intervals, path, verbose) {
+            let mut voice_channels = voice_channels.clone();
+            if !self.channels[channel_idx].intervals.is_empty() {
+                voice_channels[voice].push(channel_idx);
+            }
+            match self.find_base_voices(
+                channel_idx + 1,
+                &voice_channels,
+                conflicts,
+                impossible,
+                path,
+                verbose,
+            ) {
                 Ok(_) => {
                     self.channels[channel_idx].base_voice = voice;
                     return Ok(());
@@ -349,6 +386,7 @@ impl MidiHandler {
                 Err(_) => (),
             }
         }
+        impossible.insert(closed_to);
         Err(Error::from(MidiError::CouldntFit {
             path: path.to_str().unwrap().to_owned(),
         }))
-- 
2.43.0


From e8ffbb7ad89f1eace1e1fa6c88cfb2971f69fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 27/43] fix: a duration of 0 leaves the duration in force
 unchanged

A command whose duration is 0 writes no duration, but the writer took 0 for
the duration in force. A later command that set its velocity only then wrote
the 0, which ends the sequence.
---
 src/nspc/command.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 7288244..68db297 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -309,11 +309,10 @@ impl ParameterizedCommand {
         let mut velocity_sustain_out = prev_velocity_sustain;
         let mut duration_to_write = None;
         if let Some(duration) = self.duration {
-            if duration != prev_duration {
+            // 0 means unset
+            if duration > 0 && duration != prev_duration {
                 duration_out = duration;
-                if duration > 0 {
-                    duration_to_write = Some(duration);
-                }
+                duration_to_write = Some(duration);
             }
         }
         let mut velocity_sustain = None;
-- 
2.43.0


From bc4b8bd389b609a04423f6ad290255e19f854f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 28/43] fix: don't take the terminator of a bank for its song
 area

---
 src/rom/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index cc7c7f8..aad3d6e 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -150,6 +150,10 @@ fn write_bank(
     while last_chunk_length != 0 {
         let chunk = Chunk::load(&romdata, addr);
         last_chunk_length = chunk.length;
+        // the terminator of a bank holds an entry address
+        if last_chunk_length == 0 {
+            break;
+        }
         if chunk.aram_addr == ARAM_BASE {
             base_chunk_addr = chunk.offset_addr;
             base_chunk_len = chunk.length;
-- 
2.43.0


From 0b3a204175e8dd1e220c6d80acf779706e267d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 29/43] fix: keep the duration and velocity in force over a
 called track that sets none

---
 src/nspc/track.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 1822483..074dbef 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -325,10 +325,12 @@ impl Track {
             duration = duration_out;
             velocity = velocity_out;
             if let Some(called) = cmd.call_loop_target().and_then(|idx| all_tracks.get(idx)) {
-                // the called track leaves its own duration and velocity behind
+                // the called track leaves its own duration and velocity behind, if it sets any
                 let (duration_called, velocity_called) = called.end_state()?;
-                duration = duration_called;
-                velocity = velocity_called;
+                if duration_called != 0xff {
+                    duration = duration_called;
+                }
+                velocity = velocity_called.or(velocity);
             }
         }
         Ok(())
-- 
2.43.0


From 4a34572f92d7e72ac492220962c0914e8855fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 30/43] fix: write a valid length before a velocity that is set
 before any duration

---
 src/nspc/command.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 68db297..7715141 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -351,7 +351,11 @@ impl ParameterizedCommand {
         if let Some(duration) = duration_to_write {
             out.write_u8(duration)?;
         } else if velocity_sustain_to_write.is_some() {
-            out.write_u8(prev_duration)?;
+            // a velocity needs a duration in front of it, even if none is in force yet
+            if prev_duration == 0xff {
+                duration_out = 0x18;
+            }
+            out.write_u8(duration_out)?;
         }
         if let Some(velocity_sustain) = velocity_sustain_to_write {
             out.write_u8(velocity_sustain)?;
-- 
2.43.0


From 765ea958fcac285d2841594702f4e3187f6c7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 31/43] fix: count every occurrence of a repeated sequence

Adjoining occurrences are merged while the tree is built. A merged location
that overlaps its predecessor was dropped whole, and splitting an edge kept
only the first of its occurrences, so back-to-back repetitions were counted
too low and left uncompressed.
---
 src/nspc/seqtree.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 1a8ed99..0204917 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -370,6 +370,22 @@ fn add_location(locations: &mut Vec<Location>, track_idx: usize, cmd_idx: usize,
     }
 }
 
+/// The occurrences behind the given locations one by one, in order.
+fn single_locations(locations: &Vec<Location>, seq_len: usize) -> Vec<Location> {
+    let mut single = Vec::new();
+    for loc in locations {
+        for i in 0..loc.repeat_count as usize {
+            single.push(Location {
+                track_idx: loc.track_idx,
+                cmd_idx: loc.cmd_idx + i * seq_len,
+                repeat_count: 1,
+            });
+        }
+    }
+    single.sort_by_key(|loc| (loc.track_idx, loc.cmd_idx));
+    single
+}
+
 impl SeqTree {
     pub fn new() -> SeqTree {
         SeqTree {
@@ -437,7 +453,8 @@ impl SeqTree {
                             };
                             let old_target = edge.target.take();
                             if let Some(old_target) = old_target {
-                                for loc in &old_target.locations {
+                                let old_seq_len = seq_len + edge.commands.len();
+                                for loc in single_locations(&old_target.locations, old_seq_len) {
                                     add_location(
                                         &mut new_target.locations,
                                         loc.track_idx,
@@ -563,7 +580,7 @@ impl SeqTree {
 
     fn consolidate_locations(locations: &Vec<Location>, seq_length: usize) -> Vec<Location> {
         let mut consolidated = Vec::new();
-        for location in locations {
+        for location in &single_locations(locations, seq_length) {
             if consolidated.last().map_or(false, |loc: &Location| {
                 loc.track_idx == location.track_idx
                     && loc.cmd_idx + seq_length * loc.repeat_count as usize > location.cmd_idx
@@ -572,6 +589,7 @@ impl SeqTree {
             } else if consolidated.last().map_or(false, |loc: &Location| {
                 loc.track_idx == location.track_idx
                     && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
+                    && loc.repeat_count < u8::max_value()
             }) {
                 consolidated.last_mut().unwrap().repeat_count += 1;
             } else {
-- 
2.43.0


From 3b759b2b4edaa5067e828da2972c1c3fcee523e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:18 +0000
Subject: [PATCH 32/43] fix: a tie within a repeated sequence doesn't hide the
 repetition

Only the first command of a whole sequence must not be a tie. When an edge was
split right before a tie, the rest was taken for unshareable as well.
---
 src/nspc/seqtree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 0204917..dce3174 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -436,7 +436,9 @@ impl SeqTree {
                             break;
                         }
                     }
-                    if !shared_prefix.is_empty() && shared_prefix[0].can_be_first_in_call_loop() {
+                    if !shared_prefix.is_empty()
+                        && (seq_len > 0 || shared_prefix[0].can_be_first_in_call_loop())
+                    {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
                         if shared_prefix.len() == edge.commands.len() {
-- 
2.43.0


From b6c582b4d418530f93875a735694522c29d584a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 33/43] fix: a manifest that lacks a song or gives a wrong type
 is refused with a message

A missing or invalid input file name ended in a panic; a tempoAdjust or loop
of the wrong type was silently taken for the default.
---
 src/manifest/mod.rs | 61 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/manifest/mod.rs b/src/manifest/mod.rs
index 42b5853..ea3fd49 100644
--- a/src/manifest/mod.rs
+++ b/src/manifest/mod.rs
@@ -51,21 +51,36 @@ pub struct Song {
 }
 
 impl Song {
-    pub fn new(input: &Value, base_path: &Path) -> Song {
-        let path = Path::new(input["input"].as_str().unwrap());
+    pub fn new(input: &Value, base_path: &Path) -> Result<Song, Error> {
+        let path = Path::new(
+            input["input"]
+                .as_str()
+                .ok_or_else(|| format_err!("no input file given"))?,
+        );
         let path_buf;
         if path.is_absolute() {
             path_buf = path.to_path_buf();
         } else {
             path_buf = base_path.join(path).to_path_buf();
         }
-        Song {
-            input: Some(path_buf),
-            tempo_factor: input["tempoAdjust"]
+        let tempo_factor = match &input["tempoAdjust"] {
+            Value::Null => DEFAULT_TEMPO_ADJUST,
+            value => value
                 .as_f64()
-                .unwrap_or(DEFAULT_TEMPO_ADJUST as f64) as f32,
-            loops: input["loop"].as_bool().unwrap_or(true),
-        }
+                .ok_or_else(|| format_err!("tempoAdjust is not a number: {}", value))?
+                as f32,
+        };
+        let loops = match &input["loop"] {
+            Value::Null => true,
+            value => value
+                .as_bool()
+                .ok_or_else(|| format_err!("loop is neither true nor false: {}", value))?,
+        };
+        Ok(Song {
+            input: Some(path_buf),
+            tempo_factor,
+            loops,
+        })
     }
 
     pub fn default(path: &Path) -> Song {
@@ -92,14 +107,24 @@ pub struct Bank {
 }
 
 impl Bank {
-    pub fn new(input: &Value, name: &'static str, song_names: &[&str], base_path: &Path) -> Bank {
-        Bank {
+    pub fn new(
+        input: &Value,
+        name: &'static str,
+        song_names: &[&str],
+        base_path: &Path,
+    ) -> Result<Bank, Error> {
+        let songs: Result<Vec<Song>, Error> = song_names
+            .iter()
+            .map(|&song_name| {
+                Song::new(&input[song_name], base_path).map_err(|err| {
+                    format_err!("song \"{}\" of the {} bank in the manifest: {}", song_name, name, err)
+                })
+            })
+            .collect();
+        Ok(Bank {
             name,
-            songs: song_names
-                .iter()
-                .map(|&song_name| Song::new(&input[song_name], base_path))
-                .collect(),
-        }
+            songs: songs?,
+        })
     }
 }
 
@@ -115,9 +140,9 @@ impl Manifest {
         let parent = path.parent().unwrap();
         Ok(Manifest {
             banks: [
-                Bank::new(&json["overworld"], "overworld", &OVERWORLD_SONGS, parent),
-                Bank::new(&json["indoor"], "indoor", &INDOOR_SONGS, parent),
-                Bank::new(&json["ending"], "ending", &ENDING_SONGS, parent),
+                Bank::new(&json["overworld"], "overworld", &OVERWORLD_SONGS, parent)?,
+                Bank::new(&json["indoor"], "indoor", &INDOOR_SONGS, parent)?,
+                Bank::new(&json["ending"], "ending", &ENDING_SONGS, parent)?,
             ],
         })
     }
-- 
2.43.0


From 25f2e9cf3da999e3087b31e4f12b1f94be65e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 34/43] fix: unreadable JSON songs and unwritable JSON files
 are refused with a message

Both ended in a panic.
---
 src/lib.rs      |  4 ++--
 src/nspc/mod.rs | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bd83df..d8b3976 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,7 +52,7 @@ pub fn run(matches: clap::ArgMatches) -> Result<(), Error> {
         let mut midi = midi::MidiHandler::new();
         midi.read(Path::new(input_path.unwrap()), verbose)?;
         let song = nspc::Song::from_midi(&midi, manifest::DEFAULT_TEMPO_ADJUST, optimize, verbose)?;
-        song.write_to_json(Path::new(output_path.unwrap()));
+        song.write_to_json(Path::new(output_path.unwrap()))?;
     } else if let Some(matches) = matches.subcommand_matches("gen_fake_rom") {
         let input_path = matches.value_of("INPUT");
         let output_path = matches.value_of("OUTPUT");
@@ -122,7 +122,7 @@ fn converter(optimize: bool, verbose: bool) -> Box<Fn(&Path, f32) -> Result<nspc
         if path.extension().map_or(false, |ext| ext.eq("mid")) {
             song_from_midi(path, tempo_factor, optimize, verbose)
         } else {
-            Ok(nspc::Song::from_json(path))
+            nspc::Song::from_json(path)
         }
     };
     Box::new(converter)
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 24febf6..17e657b 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -156,14 +156,16 @@ impl Song {
         new_tracks
     }
 
-    pub fn from_json(path: &Path) -> Song {
-        let file = File::open(path).unwrap();
-        serde_json::from_reader(file).unwrap()
+    pub fn from_json(path: &Path) -> Result<Song, Error> {
+        let file = File::open(path).map_err(|err| format_err!("{}: {}", path.display(), err))?;
+        serde_json::from_reader(file).map_err(|err| format_err!("{}: {}", path.display(), err))
     }
 
-    pub fn write_to_json(&self, path: &Path) {
-        let out = File::create(path).unwrap();
-        serde_json::to_writer_pretty(out, self).unwrap()
+    pub fn write_to_json(&self, path: &Path) -> Result<(), Error> {
+        let out =
+            File::create(path).map_err(|err| format_err!("{}: {}", path.display(), err))?;
+        serde_json::to_writer_pretty(out, self)
+            .map_err(|err| format_err!("{}: {}", path.display(), err))
     }
 
     pub fn empty() -> Result<Song, Error> {
-- 
2.43.0


From 573bdb32cd50675ec8dd6b27b07d831bfced027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 35/43] fix: JSON songs the sound driver can't play are refused

More than eight tracks in a part were written over what follows the part, numbers
of missing tracks ended in a panic, a sequence calling itself exhausted the stack,
nested calls and values out of range were written as something else.
---
 src/nspc/command.rs | 10 ++++++++++
 src/nspc/mod.rs     | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 7715141..25c046c 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -364,6 +364,16 @@ impl ParameterizedCommand {
         Ok((duration_out, velocity_sustain_out))
     }
 
+    pub fn check(&self) -> Result<(), Error> {
+        ensure!(self.duration.unwrap_or(0) <= 0x7f, "duration above 127: {:?}", self);
+        ensure!(self.velocity.unwrap_or(0) <= 0xf, "velocity above 15: {:?}", self);
+        ensure!(self.sustain.unwrap_or(0) <= 7, "sustain above 7: {:?}", self);
+        if let Command::Note(note) = self.command {
+            ensure!(note >= 0x80 && note <= 0xc7, "note outside of 128 to 199: {:?}", self);
+        }
+        Ok(())
+    }
+
     pub fn call_loop_target(&self) -> Option<usize> {
         match self.command {
             Command::CallLoop(target, _) => Some(target),
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 17e657b..6b5c67c 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -158,7 +158,38 @@ impl Song {
 
     pub fn from_json(path: &Path) -> Result<Song, Error> {
         let file = File::open(path).map_err(|err| format_err!("{}: {}", path.display(), err))?;
-        serde_json::from_reader(file).map_err(|err| format_err!("{}: {}", path.display(), err))
+        let song: Song = serde_json::from_reader(file)
+            .map_err(|err| format_err!("{}: {}", path.display(), err))?;
+        song.check()
+            .map_err(|err| format_err!("{}: {}", path.display(), err))?;
+        Ok(song)
+    }
+
+    // songs that are not made by this tool may not be what the sound driver can play
+    fn check(&self) -> Result<(), Error> {
+        ensure!(!self.parts.is_empty(), "the song has no part");
+        for part in &self.parts {
+            ensure!(part.tracks.len() <= 8, "a part has more than 8 tracks");
+            for &track_idx in &part.tracks {
+                ensure!(track_idx < self.tracks.len(), "there is no track {}", track_idx);
+            }
+        }
+        for track in &self.tracks {
+            for command in &track.commands {
+                command.check()?;
+                if let Some(target) = command.call_loop_target() {
+                    ensure!(target < self.tracks.len(), "there is no track {} to call", target);
+                    let called = &self.tracks[target].commands;
+                    ensure!(!called.is_empty(), "the called track {} is empty", target);
+                    ensure!(
+                        called.iter().all(|command| command.call_loop_target().is_none()),
+                        "the called track {} calls a track itself",
+                        target
+                    );
+                }
+            }
+        }
+        Ok(())
     }
 
     pub fn write_to_json(&self, path: &Path) -> Result<(), Error> {
@@ -191,7 +222,7 @@ impl Song {
     ) -> Result<(), Error> {
         let track = &self.tracks[track_idx];
         if !track.commands.is_empty() {
-            if self.parts.iter().any(|part| part.tracks[0] == track_idx) {
+            if self.parts.iter().any(|part| part.tracks.first() == Some(&track_idx)) {
                 out.write(&PREAMBLE_TRACK_0)?;
             } else if self
                 .parts
-- 
2.43.0


From 6a638dfe4a20598898573322c947487b12aa244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 36/43] fix: MIDI files of other formats or time bases, or too
 long ones, are refused with a message

They ended in a panic (an arithmetic overflow in the case of long ones).
---
 src/midi/mod.rs   | 28 +++++++++++++++++++---------
 src/nspc/track.rs |  1 +
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 55ce96c..6032784 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -145,6 +145,7 @@ pub struct MidiHandler {
     tracks: Vec<MidiTrack>,
     channels: [MidiChannel; 16],
     voices: [MidiVoice; 8],
+    format: u16,
     pub ticks_per_beat: u16,
     pub max_time: u32,
 }
@@ -181,6 +182,7 @@ impl MidiHandler {
                 MidiVoice::new(),
                 MidiVoice::new(),
             ],
+            format: 1,
             ticks_per_beat: 0,
             max_time: 0,
         }
@@ -197,7 +199,12 @@ impl MidiHandler {
                 .read()
                 .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
         }
-        self.tracks_to_channels(verbose);
+        ensure!(self.format == 1, "MIDI format {} is not supported", self.format);
+        ensure!(
+            self.ticks_per_beat > 0 && self.ticks_per_beat < 0x8000,
+            "MIDI time is not given in ticks per beat"
+        );
+        self.tracks_to_channels(verbose)?;
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
@@ -270,29 +277,33 @@ impl MidiHandler {
         Ok(())
     }
 
-    fn tracks_to_channels(&mut self, verbose: bool) {
+    fn tracks_to_channels(&mut self, verbose: bool) -> Result<(), Error> {
         for (i, track) in self.tracks.iter().enumerate() {
             if verbose {
                 println!("extracting events from midi track {}", i);
             }
-            let mut abs_time = 0;
+            let mut abs_time = 0u32;
+            let later = |time: u32, delta_time: u32| {
+                time.checked_add(delta_time)
+                    .ok_or_else(|| format_err!("MIDI track {} is too long", i))
+            };
             for message in &track.messages {
                 match *message {
                     Message::MetaEvent { delta_time, .. } => {
-                        abs_time += delta_time;
+                        abs_time = later(abs_time, delta_time)?;
                         self.channels[0].messages.push((message.clone(), abs_time));
                     }
                     Message::MidiEvent {
                         delta_time,
                         ref event,
                     } => {
-                        abs_time += delta_time;
+                        abs_time = later(abs_time, delta_time)?;
                         self.channels[channel(event)]
                             .messages
                             .push((message.clone(), abs_time));
                     }
                     Message::SysExEvent { delta_time, .. } => {
-                        abs_time += delta_time;
+                        abs_time = later(abs_time, delta_time)?;
                         self.channels[0].messages.push((message.clone(), abs_time));
                     }
                     _ => {}
@@ -304,6 +315,7 @@ impl MidiHandler {
                 .messages
                 .sort_by_key(|&(ref event, abs_time)| (abs_time, priority(event)));
         }
+        Ok(())
     }
 
     fn find_base_voices(
@@ -698,9 +710,7 @@ impl MidiHandler {
 
 impl Handler for MidiHandler {
     fn header(&mut self, format: u16, _track: u16, time_base: u16) {
-        if format != 1 {
-            unimplemented!("MIDI format {}", format)
-        }
+        self.format = format;
         self.ticks_per_beat = time_base;
     }
 
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 074dbef..aeb9a38 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -125,6 +125,7 @@ impl Track {
                     ..
                 } => {
                     if let MetaEvent::SetTempo = *event {
+                        ensure!(data.len() >= 3, "incomplete tempo event");
                         let usec_per_beat = (data[0] as u32) * 0x10000
                             + (data[1] as u32) * 0x100
                             + (data[2] as u32);
-- 
2.43.0


From 84d248d6888151444ae654dceeb13600cce45c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 37/43] fix: ROMs that end too early and bank addresses that
 are none are refused with a message

Pointers and chunks leading outside of the ROM, bank addresses of more than 24 bits
and a song path without a file name ended in a panic.
---
 src/lib.rs     |  9 ++++++++-
 src/rom/mod.rs | 39 ++++++++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d8b3976..60b411f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -135,7 +135,14 @@ fn read_bank_addrs(matches: &ArgMatches) -> Result<[u32; 3], Error> {
             let parsed = values.map(|value_str| u32::from_str_radix(value_str, 16));
             let vec: Result<Vec<u32>, ParseIntError> = parsed.collect();
             match vec {
-                Ok(vec) => Ok([vec[0], vec[1], vec[2]]),
+                Ok(vec) => {
+                    // room for the pointer behind the address
+                    ensure!(
+                        vec.iter().all(|&addr| addr <= 0xff_fff7),
+                        "bank addresses are 24 bits wide"
+                    );
+                    Ok([vec[0], vec[1], vec[2]])
+                }
                 Err(err) => Err(Error::from(err)),
             }
         }
diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index aad3d6e..e00aa77 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -39,17 +39,30 @@ struct Chunk {
     aram_addr: usize,
 }
 
+fn checked_byte(romdata: &Vec<u8>, addr: usize) -> Result<u8, Error> {
+    romdata
+        .get(addr)
+        .cloned()
+        .ok_or_else(|| format_err!("0x{:X} is outside of the ROM", addr))
+}
+
 impl Chunk {
-    fn load(romdata: &Vec<u8>, start_addr: usize) -> Chunk {
+    fn load(romdata: &Vec<u8>, start_addr: usize) -> Result<Chunk, Error> {
+        checked_byte(romdata, start_addr + 3)?;
         let length = ((romdata[start_addr + 1] as usize) << 8) + (romdata[start_addr] as usize);
         let aram_addr =
             ((romdata[start_addr + 3] as usize) << 8) + (romdata[start_addr + 2] as usize);
         let offset_addr = start_addr + 4;
-        Chunk {
+        ensure!(
+            offset_addr + length <= romdata.len(),
+            "chunk at 0x{:X} ends outside of the ROM",
+            start_addr
+        );
+        Ok(Chunk {
             offset_addr,
             length,
             aram_addr,
-        }
+        })
     }
 
     fn write_header(&self, romdata: &mut Vec<u8>, start_addr: usize) {
@@ -137,9 +150,9 @@ fn write_bank(
     verbose: bool,
 ) -> Result<(), Error> {
     // find chunk going to ARAM D000
-    let bank_addr = romdata[snes_to_pc_addr(base_addr + 8)];
-    let high_addr = romdata[snes_to_pc_addr(base_addr + 4)];
-    let low_addr = romdata[snes_to_pc_addr(base_addr)];
+    let bank_addr = checked_byte(&romdata, snes_to_pc_addr(base_addr + 8))?;
+    let high_addr = checked_byte(&romdata, snes_to_pc_addr(base_addr + 4))?;
+    let low_addr = checked_byte(&romdata, snes_to_pc_addr(base_addr))?;
     let mut addr = snes_bytes_to_pc_addr(bank_addr, high_addr, low_addr);
     let mut last_chunk_length = 0xffffusize;
     let mut base_chunk_addr = 0;
@@ -148,7 +161,7 @@ fn write_bank(
     let mut overflow_chunk_len = 0;
     let mut aram_overflow_base = 0;
     while last_chunk_length != 0 {
-        let chunk = Chunk::load(&romdata, addr);
+        let chunk = Chunk::load(&romdata, addr)?;
         last_chunk_length = chunk.length;
         // the terminator of a bank holds an entry address
         if last_chunk_length == 0 {
@@ -158,7 +171,7 @@ fn write_bank(
             base_chunk_addr = chunk.offset_addr;
             base_chunk_len = chunk.length;
             addr = chunk.offset_addr + chunk.length;
-            let chunk = Chunk::load(&romdata, addr);
+            let chunk = Chunk::load(&romdata, addr)?;
             last_chunk_length = chunk.length;
             overflow_chunk_addr = chunk.offset_addr;
             overflow_chunk_len = chunk.length;
@@ -201,7 +214,7 @@ fn write_bank(
 
     for song_def in &bank.songs {
         bank_pb.message(&match &song_def.input {
-            Some(path) => format!("{} ", path.file_name().unwrap().to_str().unwrap()),
+            Some(path) => format!("{} ", path.file_name().unwrap_or(path.as_os_str()).to_string_lossy()),
             None => "[empty song] ".to_string(),
         });
         bank_pb.set(
@@ -452,9 +465,9 @@ pub fn gen_fake_rom(
     let mut out_romdata = vec![0u8; romdata.len()];
 
     for &base_addr in bank_base_addrs.iter() {
-        let bank_addr = romdata[snes_to_pc_addr(base_addr + 8)];
-        let high_addr = romdata[snes_to_pc_addr(base_addr + 4)];
-        let low_addr = romdata[snes_to_pc_addr(base_addr)];
+        let bank_addr = checked_byte(&romdata, snes_to_pc_addr(base_addr + 8))?;
+        let high_addr = checked_byte(&romdata, snes_to_pc_addr(base_addr + 4))?;
+        let low_addr = checked_byte(&romdata, snes_to_pc_addr(base_addr))?;
         out_romdata[snes_to_pc_addr(base_addr + 8)] = bank_addr;
         out_romdata[snes_to_pc_addr(base_addr + 4)] = high_addr;
         out_romdata[snes_to_pc_addr(base_addr)] = low_addr;
@@ -462,7 +475,7 @@ pub fn gen_fake_rom(
         let mut addr = snes_bytes_to_pc_addr(bank_addr, high_addr, low_addr);
         let mut last_chunk_length = 0xffffusize;
         while last_chunk_length != 0 {
-            let chunk = Chunk::load(&romdata, addr);
+            let chunk = Chunk::load(&romdata, addr)?;
             chunk.write_header(&mut out_romdata, addr);
             last_chunk_length = chunk.length;
             addr = chunk.offset_addr + chunk.length;
-- 
2.43.0


From d1fef3f95f6a29bb652fcdf4c498b50ce8266f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:10 +0000
Subject: [PATCH 38/43] fix: a MIDI file that ends before its last track is
 refused

---
 src/midi/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 6032784..3111e51 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -146,6 +146,7 @@ pub struct MidiHandler {
     channels: [MidiChannel; 16],
     voices: [MidiVoice; 8],
     format: u16,
+    track_count: u16,
     pub ticks_per_beat: u16,
     pub max_time: u32,
 }
@@ -183,6 +184,7 @@ impl MidiHandler {
                 MidiVoice::new(),
             ],
             format: 1,
+            track_count: 0,
             ticks_per_beat: 0,
             max_time: 0,
         }
@@ -200,6 +202,12 @@ impl MidiHandler {
                 .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
         }
         ensure!(self.format == 1, "MIDI format {} is not supported", self.format);
+        ensure!(
+            self.tracks.len() >= self.track_count as usize,
+            "{} of {} MIDI tracks are missing",
+            self.track_count as usize - self.tracks.len(),
+            self.track_count
+        );
         ensure!(
             self.ticks_per_beat > 0 && self.ticks_per_beat < 0x8000,
             "MIDI time is not given in ticks per beat"
@@ -709,8 +717,9 @@ impl MidiHandler {
 }
 
 impl Handler for MidiHandler {
-    fn header(&mut self, format: u16, _track: u16, time_base: u16) {
+    fn header(&mut self, format: u16, track: u16, time_base: u16) {
         self.format = format;
+        self.track_count = track;
         self.ticks_per_beat = time_base;
     }
 
-- 
2.43.0


From 61816310bed5d9d794c6bf838d3e4f0feaec848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:45 +0000
Subject: [PATCH 39/43] fix: MIDI events with data beyond 127 are refused

---
 src/midi/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 3111e51..81ed8e0 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -306,6 +306,12 @@ impl MidiHandler {
                         ref event,
                     } => {
                         abs_time = later(abs_time, delta_time)?;
+                        ensure!(
+                            event.binary().iter().skip(1).all(|&byte| byte < 0x80),
+                            "MIDI track {} has an invalid event: {}",
+                            i,
+                            event
+                        );
                         self.channels[channel(event)]
                             .messages
                             .push((message.clone(), abs_time));
-- 
2.43.0


From 9808abd88e405f9b665fed35406f6602b48c948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:00 +0000
Subject: [PATCH 40/43] fix: the first track that is played sets the volume of
 a song

A song whose part begins with a track without commands never set the
percussion base and the global volume.
---
 src/nspc/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 6b5c67c..195b4d7 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -222,7 +222,11 @@ impl Song {
     ) -> Result<(), Error> {
         let track = &self.tracks[track_idx];
         if !track.commands.is_empty() {
-            if self.parts.iter().any(|part| part.tracks.first() == Some(&track_idx)) {
+            // tracks without commands are not played
+            let is_first = |part: &Part| {
+                part.tracks.iter().find(|&&idx| !self.tracks[idx].commands.is_empty()) == Some(&track_idx)
+            };
+            if self.parts.iter().any(is_first) {
                 out.write(&PREAMBLE_TRACK_0)?;
             } else if self
                 .parts
-- 
2.43.0


From 09a0e1af1330d3b38fa4775d040c37369592abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:10 +0000
Subject: [PATCH 41/43] fix: an argument that is not valid UTF-8 is an error
 instead of a panic

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 5dc5da6..705ef0a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -43,6 +43,7 @@ fn main() -> Result<(), Error> {
             (@arg OUTPUT: +required "the output file to use")
         )
     )
+    .global_setting(clap::AppSettings::StrictUtf8)
     .get_matches();
     midi2spc::run(matches)
 }
-- 
2.43.0


From 4f7a558db41814ed50c6b36816e9087fec70498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:05 +0000
Subject: [PATCH 42/43] fix: no pitch slide to a note that is never played

A note without an end is left out of the song, but with portamento the note
before it still slid to its pitch.
---
 src/nspc/track.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index aeb9a38..9bec633 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -116,6 +116,7 @@ impl Track {
         let mut portamento = [false; 16];
         let mut port_time = [0u16; 16];
         let mut sliding = false;
+        let mut last_slide = 0;
         let mut drift = 0u64;
         for &(ref message, abs_time) in events {
             match *message {
@@ -214,6 +215,7 @@ impl Track {
                                     });
                                 }
                                 sliding = pitch_slide.is_some();
+                                last_slide = commands.len();
                                 pitch_slide.map(|slide| commands.push(slide));
                             } else {
                                 sliding = false;
@@ -288,6 +290,10 @@ impl Track {
                 _ => {}
             }
         }
+        // a note that never ends is not played, so nothing slides to it
+        if sliding && note_start.is_some() {
+            commands.remove(last_slide);
+        }
         let mut commands_with_sustain = Vec::new();
         if !commands.is_empty() {
             if max_time > last_note_end {
-- 
2.43.0


From f01ddb73d2433b89c068039d1d0c99839636e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 43/43] fix: songs with several parts were cut off after the
 first part

---
 src/nspc/mod.rs |  4 +++
 src/rom/mod.rs  | 73 +++++++++++++++++++++++++------------------------
 2 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 195b4d7..ed9bed2 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -206,6 +206,10 @@ impl Song {
         })
     }
 
+    pub fn get_num_parts(&self) -> usize {
+        self.parts.len()
+    }
+
     pub fn get_part_tracks(&self, part_idx: usize) -> &[usize] {
         self.parts[part_idx].tracks.as_slice()
     }
diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index e00aa77..f302bd2 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -232,7 +232,10 @@ fn write_bank(
         };
 
         // check if non-track data fits in chunk
-        let header_length = (if song_def.loops { 8 } else { 4 }) + 16;
+        // part addresses + loop command + loop target + terminator, or part addresses + terminator
+        let num_parts = song_data.get_num_parts();
+        let part_list_length = num_parts * 2 + if song_def.loops { 6 } else { 2 };
+        let header_length = part_list_length + num_parts * 16;
         if song_offset + header_length > chunk_length {
             ensure!(
                 aram_base_addr != aram_overflow_base,
@@ -271,33 +274,29 @@ fn write_bank(
         song_table_addr += 2;
 
         // song data
-        let part_data_offset;
-        if song_def.loops {
-            // part address + loop command + loop target + terminator
-            part_data_offset = song_offset + 8;
-        } else {
-            // part address + terminator
-            part_data_offset = song_offset + 4;
-        };
+        let part_data_offset = song_offset + part_list_length;
         let part_data_aram_addr = aram_base_addr + part_data_offset;
         let part_data_rom_addr = rom_addr + part_data_offset;
-        let part_data_bytes = addr_to_bytes(part_data_aram_addr);
-        romdata[rom_addr + song_offset + 1] = part_data_bytes.0;
-        romdata[rom_addr + song_offset] = part_data_bytes.1;
+        for part_idx in 0..num_parts {
+            let part_data_bytes = addr_to_bytes(part_data_aram_addr + part_idx * 16);
+            romdata[rom_addr + song_offset + part_idx * 2 + 1] = part_data_bytes.0;
+            romdata[rom_addr + song_offset + part_idx * 2] = part_data_bytes.1;
+        }
+        let part_list_end = rom_addr + song_offset + num_parts * 2;
         if song_def.loops {
-            romdata[rom_addr + song_offset + 3] = 0x00;
-            romdata[rom_addr + song_offset + 2] = 0xff;
-            romdata[rom_addr + song_offset + 5] = song_addr_bytes.0;
-            romdata[rom_addr + song_offset + 4] = song_addr_bytes.1;
-            romdata[rom_addr + song_offset + 7] = 0x00;
-            romdata[rom_addr + song_offset + 6] = 0x00;
+            romdata[part_list_end + 1] = 0x00;
+            romdata[part_list_end] = 0xff;
+            romdata[part_list_end + 3] = song_addr_bytes.0;
+            romdata[part_list_end + 2] = song_addr_bytes.1;
+            romdata[part_list_end + 5] = 0x00;
+            romdata[part_list_end + 4] = 0x00;
         } else {
-            romdata[rom_addr + song_offset + 3] = 0x00;
-            romdata[rom_addr + song_offset + 2] = 0x00;
+            romdata[part_list_end + 1] = 0x00;
+            romdata[part_list_end] = 0x00;
         };
 
         // track data
-        let mut track_data_offset = part_data_offset + 16;
+        let mut track_data_offset = song_offset + header_length;
         let mut track_addrs = Vec::<usize>::new();
 
         let mut call_loops = Vec::<RomCallLoopRef>::new();
@@ -367,22 +366,24 @@ fn write_bank(
                 part_data_rom_addr, part_data_aram_addr
             );
         }
-        let mut part_data_addr = part_data_rom_addr;
-        for i in 0..16 {
-            romdata[part_data_addr + i] = 0;
-        }
-        song_data.get_part_tracks(0).iter().for_each(|&track_idx| {
-            if verbose {
-                println!(
-                    "Writing track address 0x{:X} to part data at 0x{:X}",
-                    track_addrs[track_idx], part_data_addr
-                );
+        for part_idx in 0..num_parts {
+            let mut part_data_addr = part_data_rom_addr + part_idx * 16;
+            for i in 0..16 {
+                romdata[part_data_addr + i] = 0;
             }
-            let track_bytes = addr_to_bytes(track_addrs[track_idx]);
-            romdata[part_data_addr + 1] = track_bytes.0;
-            romdata[part_data_addr] = track_bytes.1;
-            part_data_addr += 2;
-        });
+            song_data.get_part_tracks(part_idx).iter().for_each(|&track_idx| {
+                if verbose {
+                    println!(
+                        "Writing track address 0x{:X} to part data at 0x{:X}",
+                        track_addrs[track_idx], part_data_addr
+                    );
+                }
+                let track_bytes = addr_to_bytes(track_addrs[track_idx]);
+                romdata[part_data_addr + 1] = track_bytes.0;
+                romdata[part_data_addr] = track_bytes.1;
+                part_data_addr += 2;
+            });
+        }
 
         call_loops.iter().for_each(|call_loop| {
             let call_loop_addr = call_loop.chunk_base + (call_loop.ref_pos as usize);
-- 
2.43.0

