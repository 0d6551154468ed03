#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that lib/checks.py has one for."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import checks

NOTES = {
    'C01': ('TLA+ design model of loop compression (MLoopOpt) and TLC twin execution of compressed and uncompressed conversions (TTwin/SongModel)',
            'exhaustive design model for small words; every recorded conversion is decided by TLC; all binary melodies up to a bound, beyond that random repetitive songs'),
    'C02': ('TLA+ design model MLoopOpt and TLC validation of the loop structure of converted songs (TLoop)',
            'structure of every recorded conversion decided completely; inputs bounded as for C01'),
    'C03': ('TLC twin execution of two ROM images by the sound-driver machine (NspcDriver, TTwin)',
            'whole songs executed byte by byte; songs and ROM layouts are random'),
    'C04': ('TLC twin execution of ROM image and command list (NspcDriver against SongModel, TTwin)',
            'whole songs executed; songs cover all commands with boundary parameters, chosen at random'),
    'C05': ('TLC: MIDI performance (MidiPerf) against execution of the ROM by the sound-driver machine (TPlay)',
            'every note of every recorded song decided; songs random, many time bases, up to hundreds of notes'),
    'C06': ('TLC: total voice durations of the ROM against the MIDI performance (TPlay)', 'as C05'),
    'C07': ('TLC: multiset of performed notes against notes executed from the ROM (TPlay)', 'as C05'),
    'C08': ('TLC: performance with explicit voice placement (TVoices) and TPlay on the converted songs',
            'songs random near the eight-voice limit'),
    'C09': ('TLA+ design model of voice assignment (MVoice) whose patterns are replayed, TLC check of witness partitions (TVoices)',
            'design model exhaustive for 4 channels, 3 slots, 2 voices; up to 16 channels by random witness songs'),
    'C10': ('TLC: channel settings of the MIDI performance against instrument and volume executed from the ROM (TPlay)', 'as C05'),
    'C11': ('TLC: percussion hits of the MIDI performance against the ROM execution (TPlay)', 'as C05'),
    'C12': ('TLC: tempo events of the MIDI performance against the ROM execution (TPlay)', 'as C05'),
    'C13': ('TLC: set of bytes a build changed against the regions the ROM model allows (TRom)', 'every changed byte decided; layouts and songs random'),
    'C14': ('TLC: pieces reached from the song table, executed by the ROM model, are disjoint and inside the areas (TRom)', 'every byte of every song decided; layouts and songs random'),
    'C15': ('TLC validation of operation histories with injected failures and short writes (THist)', 'failures at every kind of input and write cut at sampled lengths'),
    'C16': ('TLA+ packing model (MPack/TPack): predicted fit against the outcome at exact boundaries', 'boundary sizes of each bank +-1 around every piece sampled'),
    'C17': ('TLC: manifest model names the file of each slot, twin execution against reference builds (TManifest)', 'manifests random'),
    'C18': ('TLA+ history model (MHist) whose histories are replayed on one ROM, twin execution per slot (THist)', 'histories up to a bound from the model, then random ones'),
    'C19': ('TLC: outcome comparison of direct and via-JSON builds (TOutcome)', 'songs random'),
    'C20': ('TLC: outcome comparison of repeated and verbose runs (TOutcome)', 'songs random'),
    'C21': ('TLC: byte-level model of fake ROM (TFake) and twin execution of songs built into both (TTwin)', 'every byte decided; layouts random'),
    'C22': ('TLC: portamento model over MIDI performance against the ROM execution (TPorta)', 'melodies random and all short ones; shared voices and polyphonic channels random'),
    'C23': ('TLC: sound-driver execution of the start of every voice (TPre)', 'every voice of every song decided; songs random'),
    'C24': ('TLC: outcome model over adversarial but well-formed MIDI files (TOutcome)', 'files random, including generated worst cases'),
    'C25': ('TLC: song-level execution of the parts of built ROMs by the driver machine (TRom)', 'every slot decided; loop flags random and defaulted'),
    'C26': ('TLC: two files performed by the MIDI machine (MidiPerf) are the same music and are answered alike (TSame)', 'songs and ways of writing them random'),
    'C27': ('TLC: folder tree as a state machine whose steps may change only the named output (TFiles)', 'histories of commands random'),
    'C28': ('TLC: walk of the MIDI events over the events read back from the dump (TDump)', 'every event of every file decided; files random'),
    'C29': ('TLC: exhaustive compression model (MShrink) and walk of all positions of converted songs (TCompact)', 'every passage of every song decided; binary words exhaustive, other songs random'),
    'C30': ('TLC: decision machine over everything a run is given - bank addresses, ROM chunks, manifest, songs, output - against its outcome (TUsable)', 'faults random, one to a few per run, and every boundary value listed'),
}
checks_, na = [], []
for i in range(1, 99):
    p = 'C%02d' % i
    if p not in NOTES and p not in checks.CHECKS:
        continue
    if p in checks.CHECKS:
        t, n = NOTES[p]
        checks_.append({'property': p, 'quick_cmd': 'bin/check ' + p, 'thorough_cmd': 'bin/check ' + p,
                        'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': p, 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks_, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
