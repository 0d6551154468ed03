#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
CLI_JSON="midi2spc [-s] midi2json IN OUT (exit status and JSON song)"
CLI_ROM="midi2spc build_rom MANIFEST ROM [--bank_addrs ..] (exit status and ROM bytes)"

p("C01","Loop compression never changes a song's music",
  "For every MIDI file, take the compressed conversion and replace each loop call by the called sequence, repeated as many times as the call says: the result is, voice by voice and command by command, exactly the conversion made with compression switched off.",
  ["inputs"],"all format-1 MIDI files whose conversion succeeds: any number of voices (1-8), any repetition structure within and across voices",
  "The unit tests look at the sequence tree for seven hand-written tracks and never expand a compressed song; the integration tests only require that conversion returns Ok.",
  ["src/nspc/seqtree.rs","src/nspc/mod.rs"],
  [("sequence tree collects repeated command runs and their locations","src/nspc/seqtree.rs add_commands/add_location"),
   ("overlap removal and repeat counting","src/nspc/seqtree.rs consolidate_locations"),
   ("splicing loop calls into the voices","src/nspc/mod.rs extract_sequence")],
  [("locations","where a repeated run occurs and how often back to back","src/nspc/seqtree.rs Location")],[CLI_JSON])
p("C02","Loop calls are always executable by the sound driver",
  "In every converted song each loop call targets an existing, non-empty sequence that is not one of the song's own voices, that itself contains no loop call (the driver has a single return slot), and whose repeat count is between 1 and 255. Every sequence in the song is either a voice or the target of some loop call.",
  ["inputs"],"all format-1 MIDI files whose conversion succeeds, with compression on or off; songs with heavy repetition need many compression rounds",
  "No test inspects a loop call of a converted song; nesting or an out-of-range target only appears after several rounds of compression.",
  ["src/nspc/mod.rs","src/nspc/seqtree.rs"],
  [("loop calls are never eligible for another loop","src/nspc/command.rs call_loop_eligible"),
   ("only the original voices are searched","src/nspc/mod.rs optimize_call_loops top_level_tracks")],
  [("tracks","voices first, then extracted sequences","src/nspc/mod.rs Song")],[CLI_JSON,CLI_ROM])
p("C03","Compressed and uncompressed ROM builds play identically",
  "Build the same songs into the same ROM once with and once without compression. Executing both ROM images by the sound driver's rules produces, for every song and every voice, the same notes, ties, rests and control commands at the same times with the same effective duration, velocity and articulation.",
  ["inputs"],"all songs whose two builds both fit; in particular songs whose velocity changes around repeated material, where the driver's remembered duration and velocity at the loop boundary matter",
  "The tests never execute a ROM image; differences are in remembered driver state at loop entry, loop repeat and loop return, which no assertion looks at.",
  ["src/nspc/command.rs","src/nspc/track.rs","src/nspc/mod.rs","src/rom/mod.rs"],
  [("duration and velocity bytes are only written when they change","src/nspc/command.rs ParameterizedCommand::write"),
   ("state reset at the start of every track","src/nspc/track.rs Track::write"),
   ("loop addresses patched into calls","src/rom/mod.rs call_loops")],
  [("remembered duration / velocity-articulation","what the writer believes the driver currently holds","src/nspc/track.rs Track::write")],[CLI_ROM])
p("C04","The driver reads back exactly the commands of the song",
  "For every song given as a list of commands, executing the written ROM data by the sound driver's rules yields for every voice exactly the song's commands, in order, with the same parameters: every note, tie and rest lasts its stated duration and every note has its stated velocity and articulation, also inside and after loop calls. Values left unset keep the value in force in that sequence; where a voice has set neither velocity nor articulation yet, they are 13 and 7. A song has all of its parts, in their order; the tracks of a part play on the driver's voices in their order; a track without commands is a silent voice.",
  ["inputs","programs"],"all songs in the JSON format (any mix of the thirty command kinds and loop calls) in which a note, tie or rest states a duration whenever it states velocity or articulation or is the first one of its sequence or after a loop call",
  "No test decodes written bytes; the byte format is context dependent (duration and velocity bytes are implicit), so a wrong byte shifts the meaning of everything after it.",
  ["src/nspc/command.rs","src/nspc/track.rs","src/nspc/mod.rs"],
  [("command byte encoding","src/nspc/command.rs Command::write"),
   ("implicit duration/velocity state","src/nspc/command.rs ParameterizedCommand::write")],
  [],[CLI_ROM])
p("C05","Every note starts and ends where the MIDI file puts it",
  "A driver beat has 24 ticks. Every note of the converted song starts less than one driver tick from its MIDI position and ends less than one driver tick from its MIDI end (for a note with near-full articulation, within the eighth the driver reserves for articulation), however long the song is, so errors never accumulate. Where a driver tick is not a whole number of MIDI ticks (time base not a multiple of 24), both limits are two driver ticks instead of one.",
  ["inputs","histories"],"all convertible MIDI files with a time base of at least 24 ticks per beat whose notes last at least one driver tick: any such time base, any note and rest lengths including ones that need several commands, program/volume/tempo events anywhere",
  "The tests check eight articulation cases in isolation; no test compares a converted song with its MIDI timeline, and drift only shows over long histories and unusual time bases.",
  ["src/nspc/track.rs","src/nspc/command.rs"],
  [("quantisation of lengths","src/nspc/track.rs get_duration"),("rest insertion","src/nspc/track.rs insert_rest"),
   ("note + rest merged into an articulated note","src/nspc/command.rs set_sustain")],
  [("last_note_end","position already emitted","src/nspc/track.rs Track::new")],[CLI_ROM])
p("C06","All voices of a song end together at the song's end",
  "In every converted song the total duration of every voice differs by less than one driver tick (two, if the time base is not a multiple of 24) from the time of the last channel event of the MIDI file, so all voices end together; the driver ends or restarts a song as soon as one voice ends, so no voice is ever cut off.",
  ["inputs"],"all convertible MIDI files with a time base of at least 24 whose notes last at least one driver tick; voices with trailing silence of any length, tempo-only voices, unused channels",
  "No test adds up durations; the trailing silence is only computed after the whole voice has been processed.",
  ["src/nspc/track.rs","src/midi/mod.rs"],
  [("trailing rest up to the common end","src/nspc/track.rs Track::new"),("max_time over all channels","src/midi/mod.rs read")],
  [("max_time","time of the last channel event","src/midi/mod.rs MidiHandler")],[CLI_ROM])
p("C07","Every MIDI note sounds exactly once with its pitch and velocity",
  "When a conversion succeeds, the notes played by the song are exactly the notes of the MIDI file that start and later end (a note struck again while sounding ends the earlier one): none lost, none added, none doubled. Each has its MIDI pitch, moved by whole octaves into the driver's six-octave range (MIDI 24-95) if outside it, and a velocity level of an eighth of the MIDI velocity, but at least 1.",
  ["inputs"],"all convertible MIDI files with notes of positive length; any mix of channels, chords, restruck notes, velocity-0 note-ons, stray note-offs, channels in any order over any number of MIDI tracks",
  "The tests never compare the notes that come out with the notes that went in; the integration tests accept any song.",
  ["src/midi/mod.rs","src/nspc/track.rs","src/nspc/command.rs"],
  [("merging tracks into channels and channels into voices","src/midi/mod.rs tracks_to_channels, channels_to_voices"),
   ("note commands","src/nspc/track.rs Track::new")],
  [("active_notes","which voice sounds which note","src/midi/mod.rs channels_to_voices")],[CLI_ROM])
p("C08","Polyphony is either fully reproduced or refused with an error",
  "If more than eight notes sound at the same time the conversion fails with an error and produces nothing; it never drops, shortens or merges notes to make them fit. If the song uses one channel with at most eight simultaneous notes, or every extra simultaneous note beyond one per channel finds one of the voices that no channel uses as its own, the conversion succeeds.",
  ["inputs"],"all MIDI files with notes of positive length, chords from 1 to 16 notes on 1 to 16 channels, with staggered starts and ends",
  "The tests contain no overfull input and no assertion on which voices are used.",
  ["src/midi/mod.rs"],
  [("overflow to a free voice that is no channel's base voice","src/midi/mod.rs channels_to_voices"),
   ("CouldntFit error","src/midi/mod.rs MidiError")],
  [("active_notes","voices in use","src/midi/mod.rs channels_to_voices")],[CLI_JSON])
p("C09","Channels share voices whenever a sharing exists",
  "If every channel plays one note at a time and the channels can be partitioned into at most eight groups such that channels of one group never sound together, the conversion succeeds, whatever the order of the channels.",
  ["inputs","configurations"],"all MIDI files with up to 16 single-note channels and any pattern of which channels overlap in time",
  "Whether a search finds every feasible assignment depends on the whole overlap pattern; the samples need no search at all.",
  ["src/midi/mod.rs"],
  [("backtracking search for base voices","src/midi/mod.rs find_base_voices"),("overlap test","src/midi/mod.rs overlapping_interval")],
  [("active_base_intervals","time already taken on each voice","src/midi/mod.rs find_base_voices")],[CLI_JSON])
p("C10","Every note sounds with its own channel's instrument and volume",
  "Every melodic note is played with the driver instrument mapped from the latest program change of its own channel and with twice the latest channel volume of its own channel, if that channel has set them (a change made while the note sounds may already apply to it). This holds no matter which voice plays the note, which other channels shared that voice before, and what happened to other channels meanwhile.",
  ["inputs","histories"],"all convertible MIDI files: channels sharing a voice, chords spilling to other voices, program and volume changes before, between and during notes, on any of the 15 melodic channels",
  "The tests assert nothing about instruments or volume; a stale instrument needs a particular history of voice sharing.",
  ["src/midi/mod.rs","src/nspc/track.rs","src/nspc/instruments.rs"],
  [("re-sending channel state when a voice changes hands","src/midi/mod.rs channels_to_voices"),
   ("program to instrument map","src/nspc/instruments.rs INSTRUMENT_MAP")],
  [("last program/volume per channel and voice","what each voice was last told","src/midi/mod.rs channels_to_voices")],[CLI_ROM])
p("C11","Drum notes get the right drum sound on every hit",
  "On the percussion channel every hit of MIDI notes 38 and 40 is played with the snare instrument at the fixed snare pitch (MIDI 68), every other hit with the cymbal instrument at its own pitch, both with twice the latest volume set on that channel, if any (a change made while the hit sounds may count already), regardless of how the hit was ended, which voice plays it, which hits came before, and of program changes on that channel.",
  ["inputs","histories"],"all convertible MIDI files with percussion: alternating and simultaneous hits, rolls, note-offs as velocity-0 note-ons, drum-kit program changes, voices shared with melodic channels",
  "No test has an assertion about percussion; the failure needs a sequence of hits over several voices.",
  ["src/midi/mod.rs","src/nspc/track.rs"],
  [("percussion instrument selection and snare pitch","src/midi/mod.rs channels_to_voices")],
  [("last percussion instrument","instrument last selected for drums","src/midi/mod.rs channels_to_voices")],[CLI_ROM])
p("C12","Tempo changes take effect at their musical position",
  "The song carries exactly the MIDI file's tempo changes, in order, each with the value 'beats per minute rounded up, times the song's tempo factor, truncated' limited to one byte. Each takes effect less than one driver tick (two, if the time base is not a multiple of 24) from its MIDI position, or, if the voice carrying it is sounding a note across that position, at that note's start; a change after the last channel event comes at the song's end.",
  ["inputs"],"all convertible MIDI files with tempo events anywhere (before, between, during and after notes, on any MIDI track) and any tempo factor",
  "The tests never look at tempo commands; tempo is global in the driver, so a misplaced change bends all voices and needs a timeline comparison to notice.",
  ["src/nspc/track.rs","src/midi/mod.rs","src/manifest/mod.rs"],
  [("tempo conversion","src/nspc/track.rs Track::new"),("tempo events routed to the first voice","src/midi/mod.rs channels_to_voices")],
  [],[CLI_ROM])
p("C13","Writing songs never touches anything else in the ROM",
  "A successful build keeps the ROM's size and changes only bytes inside the two song areas (main and overflow) of each song bank, wherever the bank pointers put them; chunk headers, the chunks before and after, the bank pointers, the table slots before a bank's own (they belong to the other banks) and everything else stay byte for byte the same.",
  ["inputs","configurations"],"all manifests and songs, all ROM layouts with a main song area followed by an overflow area per bank (any location, size and neighbouring chunks; any bank pointer addresses), in particular songs that fill or switch areas",
  "The integration tests write a ROM and never read it back.",
  ["src/rom/mod.rs"],
  [("area limits checked before writing","src/rom/mod.rs write_bank ensure!/chunk_length"),
   ("loop call patching","src/rom/mod.rs call_loops"),("address translation","src/rom/mod.rs snes_to_pc_addr")],
  [("rom_addr/chunk_length/aram_base_addr","area being filled","src/rom/mod.rs write_bank")],[CLI_ROM])
p("C14","Every song in the ROM is complete, intact and reachable",
  "After a successful build, starting from the song table, every song's header, part, voice and loop pointers lead to data lying entirely inside one of the bank's two song areas; every voice and loop sequence ends with its terminator inside that area, and no byte belongs to two different songs or to two different pieces of one song. Entries of a bank's song table behind its last song, up to its first song, name no music any more (they are 0).",
  ["inputs","configurations"],"all manifests and songs that fit, all area sizes, including songs placed across the switch from main to overflow area with loop calls on both sides of it",
  "Nothing in the tests follows a pointer; overlaps only appear with particular combinations of song and area sizes.",
  ["src/rom/mod.rs","src/nspc/mod.rs"],
  [("placement cursor","src/rom/mod.rs write_bank track_data_offset/song_offset"),("pointer fix-ups","src/rom/mod.rs addr_to_bytes, track_addrs")],
  [("song_offset, track_data_offset","next free byte","src/rom/mod.rs write_bank")],[CLI_ROM])
p("C15","A failed build leaves the ROM as it was; success means it is all written",
  "If a build ends with an error of any kind (missing or invalid input, too many notes, songs that do not fit, bad manifest, bad ROM), the ROM file is byte for byte what it was before. If it reports success, the complete new content is in the file: a write cut short by the operating system is reported as an error.",
  ["fault_sequences","inputs"],"every failing song slot (first, middle, last, any bank), every kind of failure, and short or refused writes by the operating system at any size",
  "The tests only exercise the success path.",
  ["src/rom/mod.rs","src/lib.rs","src/manifest/mod.rs"],
  [("ROM is assembled in memory and written at the end","src/rom/mod.rs write")],
  [("romdata","in-memory image","src/rom/mod.rs write")],[CLI_ROM])
p("C16","Songs are refused for space exactly when they do not fit",
  "Songs are laid out in order, first in the main area and, from the first piece (song header with part, voice or loop sequence) that does not fit there, in the overflow area. A build fails for lack of space exactly when some piece does not fit in this way, or when the main area cannot even hold the bank's song table; pieces that fill an area to its last byte are accepted.",
  ["inputs","configurations"],"all song sizes and area sizes, including exact fits, one byte over, empty and tiny overflow areas, and pieces larger than either area",
  "The sample songs fit comfortably or switch once; no test fills an area or overflows both.",
  ["src/rom/mod.rs"],[("fit checks","src/rom/mod.rs write_bank")],[("chunk_length","size of the area being filled","src/rom/mod.rs write_bank")],[CLI_ROM])
p("C17","Each song slot plays the file the manifest names for it",
  "After a build from a manifest, the song table slot of every one of the 34 named songs plays the converted content of exactly the file named for it: a relative path is taken from the manifest's folder, the tempo factor given for that entry (0.2 by default) is used for MIDI files, and a file name not ending in .mid is read as a JSON song. Entry order in the manifest and repeated use of a file make no difference.",
  ["inputs","configurations"],"all manifests: any assignment of files to slots, any entry order, absolute and relative paths, any tempo factors, MIDI and JSON inputs mixed, any current directory",
  "The one manifest in the tests is written and never checked against the ROM.",
  ["src/manifest/mod.rs","src/rom/mod.rs","src/lib.rs"],
  [("slot order of the three banks","src/manifest/mod.rs *_SONGS"),("song table position","src/rom/mod.rs song_table_addr, first_song")],
  [],[CLI_ROM])
p("C18","Operations on one ROM compose: the last successful build decides",
  "For any sequence of builds on one ROM (manifest build, all-overworld, file-select, failing builds, with or without compression), every slot plays exactly what the last successful operation assigned to it: all-overworld gives every slot the input song, file-select gives the file-select slot the input song and leaves every other slot silent. Nothing of earlier builds is heard or limits the available space.",
  ["histories"],"all operation sequences on a ROM, including failing operations in between",
  "Each test does one operation on a fresh copy of the ROM.",
  ["src/rom/mod.rs","src/manifest/mod.rs","src/lib.rs"],
  [("area sizes are taken from the chunk headers, which builds preserve","src/rom/mod.rs write_bank"),
   ("derived manifests","src/manifest/mod.rs single_song, file_select")],
  [("ROM file","slots and their songs","the ROM")],["midi2spc build_rom / all_overworld / file_select (exit status and ROM bytes)"])
p("C19","Converting via JSON gives the same ROM as converting directly",
  "Converting a MIDI file to JSON and building the ROM from the JSON file gives byte for byte the ROM that building from the MIDI file gives with the default tempo factor and the same compression setting.",
  ["inputs"],"all convertible MIDI files, compression on or off",
  "No test writes or reads a JSON song.",
  ["src/nspc/mod.rs","src/lib.rs","src/nspc/command.rs"],
  [("JSON writer and reader","src/nspc/mod.rs write_to_json, from_json")],[],[CLI_JSON,CLI_ROM])
p("C20","Conversion is deterministic and verbosity has no effect",
  "Running the same command on the same input again, in another process and with or without verbose output, gives the same exit status and byte for byte the same result file.",
  ["schedules","inputs"],"all commands and inputs; every process has its own random hash seeds and thread timing",
  "Each test runs once, without verbose output, and compares nothing.",
  ["src/midi/mod.rs","src/rom/mod.rs","src/lib.rs"],
  [("iteration over active notes","src/midi/mod.rs channels_to_voices HashMap"),("progress bar thread","src/rom/mod.rs write")],[],[CLI_JSON,CLI_ROM])
p("C21","A generated fake ROM behaves like the original but contains nothing of it",
  "The fake ROM generated from a ROM has the same size; it repeats the original's song bank pointers and the header of every chunk of every bank, and every other byte is zero, also when the output file existed before. Building any songs into the fake ROM succeeds or fails as with the original, and on success the songs play identically.",
  ["inputs","configurations","histories"],"all ROM layouts, any previous content of the output file, any songs built afterwards",
  "No test calls the generator.",
  ["src/rom/mod.rs","src/lib.rs"],[("copying pointers and chunk headers","src/rom/mod.rs gen_fake_rom")],[],["midi2spc gen_fake_rom IN OUT (output file)"])
p("C22","Portamento notes glide from the previous note and land on time",
  "With portamento on for its channel, a note that directly follows another note of that channel on the same voice is reached by a pitch slide from that note to the new pitch, which ends when the new note starts (or, if the portamento time is longer, starts with the previous note, or with the last 127-tick stretch of a very long one), and then continues without a new attack for the new note's length, also when tempo, volume or program changes arrive while it sounds; a change exactly where it starts may break the glide and attack it anew; a note after silence, or with portamento off, is attacked normally, and nothing slides to a note that is never played because it has no end. The portamento settings of one channel never affect the notes of another, also where channels share voices or a channel spreads over several. Loop compression never changes this.",
  ["inputs","histories"],"all songs whose melodic channels switch portamento on and off with any portamento time (both controller bytes), alone, polyphonic or on shared voices",
  "Slides appear only in sequence-tree tests, never as the result of a conversion.",
  ["src/nspc/track.rs","src/nspc/command.rs","src/nspc/seqtree.rs"],
  [("slide creation and tie continuation","src/nspc/track.rs Track::new, src/nspc/command.rs create_pitch_slide")],
  [("portamento, port_time","controller state of the voice","src/nspc/track.rs Track::new")],[CLI_ROM])
p("C23","Every song starts from defined volumes",
  "In every song built into a ROM, the first voice that plays sets the percussion base (25) and the global volume (200), and every voice sets its channel volume (200), before any of its own commands, notes, ties and rests; loop sequences never do. What was played before therefore cannot change a song's loudness.",
  ["inputs","histories"],"all songs, from MIDI or JSON, with 1-8 voices and any number of loop sequences",
  "The tests never decode the written data.",
  ["src/nspc/mod.rs"],[("preambles","src/nspc/mod.rs PREAMBLE_TRACK_0, PREAMBLE_OTHER_TRACK, write_track")],[],[CLI_ROM])
p("C24","Any well-formed MIDI file is converted or refused, never a crash",
  "Every well-formed format-1 MIDI file is either converted or refused with an error message: the tool never aborts, overflows or hangs (for files up to 10,000 beats and a few thousand notes). This includes stray and repeated note-offs, restruck notes, zero-length and sub-tick notes, notes never ended, running status, system-exclusive and unknown events, empty tracks, and very long silences or heavy repetition.",
  ["inputs"],"all well-formed format-1 MIDI files with a positive ticks-per-beat time base, with and without compression and verbose output",
  "The sample files are clean exports of notation programs.",
  ["src/midi/mod.rs","src/nspc/track.rs","src/nspc/seqtree.rs"],
  [("counting active notes","src/midi/mod.rs read"),("length arithmetic","src/nspc/track.rs get_duration"),("repeat counting","src/nspc/seqtree.rs best_sequence")],[],[CLI_JSON])
p("C25","Looping songs repeat forever, others stop",
  "After a build, a song whose manifest entry has looping on (the default) plays its parts (one, unless the song is a JSON file with more) and then restarts from its beginning without end; a song with looping off plays its parts once and stops. Songs left empty stop at once and play nothing.",
  ["inputs","configurations"],"all manifests with any mix of looping settings, all three banks, songs in main and overflow area",
  "No test reads a song header.",
  ["src/rom/mod.rs","src/manifest/mod.rs"],[("song header with or without loop command","src/rom/mod.rs write_bank")],[],[CLI_ROM])
p("C26","The way a MIDI file is written down does not matter",
  "Two MIDI files that stand for the same music give the same song, or are both refused: it makes no difference how the channels, and the settings of a channel apart from its notes, are spread over tracks and in which order the tracks come, whether running status is used, whether a note is ended by a note-off or by a note-on of velocity 0, which release velocities, texts, key signatures, system-exclusive data or controllers without meaning to the tool stand between the notes, when a track ends after its last event, or (without portamento) whether a time base divisible by 24 is made finer with all times scaled alike.",
  ["inputs"],"all pairs of format-1 MIDI files that are performed alike, with any songs of C05-C12 and C22, convertible or not, with and without compression",
  "Every sample is one file; the same music from another program is never compared.",
  ["src/midi/mod.rs","src/nspc/track.rs"],
  [("merging tracks into channels in time order","src/midi/mod.rs tracks_to_channels, priority"),("note ends of both forms","src/midi/mod.rs channels_to_voices")],
  [],[CLI_JSON])
p("C27","Commands write nothing but the file they are told to write",
  "Whatever the command and wherever it is started, the only file it may change or create is the one named as its output (the ROM of a build, the JSON of a conversion, the copy of gen_fake_rom); inputs, manifests and all other files stay as they are and no file is left behind. A command that is refused, and dump_midi, change nothing.",
  ["inputs","histories","configurations"],"all sequences of commands over a folder tree, succeeding or refused because of their inputs, any current directory, relative and absolute paths",
  "The tests look at nothing but the exit status.",
  ["src/lib.rs","src/rom/mod.rs","src/nspc/mod.rs"],
  [("output files","src/rom/mod.rs write, gen_fake_rom; src/nspc/mod.rs write_to_json"),("read-only inputs","src/rom/mod.rs gen_fake_rom, src/nspc/mod.rs from_json")],
  [],["the folder tree before and after each command"])
p("C28","The MIDI dump shows the whole file",
  "dump_midi shows every event of every track of a MIDI file, in file order with its distance and values, and again every channel event under its channel at its absolute time, in the order in which it takes effect; also for files that cannot be converted.",
  ["inputs"],"all well-formed format-1 MIDI files, including ones with stray or never-ending notes, many tracks and unsupported polyphony",
  "The tests never run the dump.",
  ["src/lib.rs","src/midi/mod.rs"],
  [("reading and sorting","src/midi/mod.rs tracks_to_channels"),("output","src/lib.rs run dump_midi")],
  [("tracks, channels","events as read and as sorted","src/midi/mod.rs MidiHandler")],["midi2spc dump_midi IN (standard output)"])
p("C29","Compression leaves no repeated passage behind",
  "With compression on, no passage of four commands that are neither ties, slides nor loop calls occurs in two places (that do not overlap) of a converted song's voices: it has become a loop. The song, with its called sequences, never has more commands than with compression off, where there are no loop calls at all.",
  ["inputs"],"all format-1 MIDI files whose conversion succeeds: any number of voices and any repetition structure, also passages repeated in direct succession, overlapping themselves, or across ties",
  "The unit tests look for the best sequence of seven hand-written tracks; nothing looks at what is left after the last round of compression.",
  ["src/nspc/seqtree.rs","src/nspc/mod.rs"],
  [("best repeated sequence of a round","src/nspc/seqtree.rs best_sequence, consolidate_locations"),("rounds until nothing is left","src/nspc/mod.rs optimize_call_loops")],
  [("locations","where a repeated run occurs and how often back to back","src/nspc/seqtree.rs Location")],[CLI_JSON])
p("C30","Unusable inputs are refused with a message, usable ones are accepted",
  "Every build, conversion or dummy-ROM run on something the tool cannot use ends with exit status 1 and a message, never with a crash, a hang or a success: manifests that break their schema (a bank, song or input missing, a wrong type, no JSON), songs in JSON that have another shape or that the sound driver cannot play (numbers out of range, more than eight tracks in a part, tracks or called sequences that do not exist, are empty or call others), MIDI files that are cut short or lack a track, of another format or time base, with data beyond seven bits, short tempo events or more than 2^32 ticks, ROMs whose pointers or chunks lead outside of the file or that have no room for song tables, bank addresses that are none, files that are missing, are folders or cannot be written. When nothing of the kind is wrong (and there is room for the songs), the run succeeds.",
  ["inputs","configurations"],"all manifests, JSON songs, MIDI files, ROM images and bank addresses a value, key, byte or length away from good ones, in every command that reads them, with and without compression and verbose output",
  "The tests only run good inputs.",
  ["src/manifest/mod.rs","src/nspc/mod.rs","src/nspc/command.rs","src/midi/mod.rs","src/rom/mod.rs","src/lib.rs"],
  [("manifest","src/manifest/mod.rs Song::new, Bank::new; src/manifest.schema.json"),("JSON songs","src/nspc/mod.rs from_json, check; src/nspc/command.rs check"),("MIDI","src/midi/mod.rs read, tracks_to_channels"),("ROM","src/rom/mod.rs Chunk::load, write_bank, gen_fake_rom"),("bank addresses","src/lib.rs read_bank_addrs")],
  [],["exit status and standard error of every command"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
