"""Checks of converted songs against the performance of their MIDI file (spec/TPlay.tla)."""
import json
import os
import random
import re
import shutil

import midi
import rom
import vt

FACTORS = [(1, 5), (1, 5), (1, 5), (1, 10), (3, 10), (1, 4), (1, 2), (17, 100), (1, 1), (7, 20), (3, 2), (2, 1), (1, 100), (5, 1)]


def build_batch(chk, name, songs, skip_opt=False, bases=None):
    """Builds up to 34 songs into one roomy ROM with one build_rom run. Each song gets a slot,
    a tempo factor and a loop flag. Returns (songs that are in the ROM, memories per bank)."""
    rng = chk.rng
    d = os.path.join(chk.scratch.dir, name)
    os.makedirs(d, exist_ok=True)
    entries = []
    for i in range(34):
        s = songs[i % len(songs)]
        f = 's%02d.mid' % (i % len(songs))
        if i < len(songs):
            midi.write(os.path.join(d, f), s['tpb'], s['tracks'], running=s.get('running', False))
            s['factor'] = s.get('factor') or rng.choice(FACTORS)
            s['loop'] = rng.random() < 0.5
            s['slot'] = i
            s['file'] = os.path.join(d, f)
        entries.append({'input': f, 'tempoAdjust': s['factor'][0] / s['factor'][1], 'loop': s['loop']})
    mpath = os.path.join(d, 'manifest.json')
    rom.write_manifest(mpath, entries)
    image, layout = rom.roomy(rng, pre=0, post=0)
    rpath = os.path.join(d, 'rom.smc')
    with open(rpath, 'wb') as f:
        f.write(image)
    o = chk.tool.run((['-s'] if skip_opt else []) + ['build_rom', mpath, rpath] + layout.args(), timeout=120)
    if o.kind != 'ok':
        return o, None
    after = open(rpath, 'rb').read()
    return o, [rom.memory(after, layout, b, 0xff) for b in range(3)]


def bank_of(slot):
    return 0 if slot < 15 else 1 if slot < 31 else 2


def convertible(chk, songs, name):
    """The songs the tool converts on their own."""
    d = os.path.join(chk.scratch.dir, name)
    os.makedirs(d, exist_ok=True)

    def one(i):
        s = songs[i]
        f = os.path.join(d, 'c%03d.mid' % i)
        midi.write(f, s['tpb'], s['tracks'], running=s.get('running', False))
        s['file'] = f
        return chk.tool.run(['midi2json', f, f + '.json'], timeout=60)
    res = vt.pmap(one, list(range(len(songs))))
    return res


def collect(chk, songs, skip_opts=(False, True)):
    """Puts the songs into ROMs; returns cases and memories for TPlay."""
    cases, mems = [], []
    batches = [songs[i:i + 34] for i in range(0, len(songs), 34)]

    def go(k):
        return build_batch(chk, 'rom%d' % k, batches[k], skip_opts[k % len(skip_opts)])
    for k, batch in enumerate(batches):
        o, m = go(k)
        if m is None:
            res = convertible(chk, batch, 'conv%d' % k)
            for s, r in zip(batch, res):
                if r.kind not in ('ok', 'error'):
                    chk.violation('a well-formed song is neither converted nor refused (%s)' % r.kind,
                                  {'stderr': r.tail()}, [s['file']])
            good = [s for s, r in zip(batch, res) if r.kind == 'ok']
            chk.count(songs_not_converted=len(batch) - len(good))
            if not good:
                continue
            batch = good
            o, m = build_batch(chk, 'rom%d' % k, batch, skip_opts[k % len(skip_opts)])
            if m is None:
                chk.violation('songs that can be converted cannot be built into a ROM with room (%s)' % o.kind,
                              {'stderr': o.tail()}, [s['file'] for s in good])
        base = len(mems)
        mems += m
        for s in batch:
            cases.append({'tpb': s['tpb'], 'num': s['factor'][0], 'den': s['factor'][1],
                          'tracks': midi.to_model(s['tracks']), 'mem': base + bank_of(s['slot']) + 1,
                          'slot': s['slot'], 'shared': any(len(g) > 1 for g in s.get('partition') or []) or
                          s.get('unstarted', False), 'song': s})
    return cases, mems


def run_tplay(chk, songs, invs, tag='play', module='TPlay', extra=None, skip_opts=(False, True)):
    cases, mems = collect(chk, songs, skip_opts)
    if not cases and songs:
        chk.violation('none of %d well-formed songs is converted' % len(songs), {}, [s['file'] for s in songs[:30]])
    path = os.path.join(chk.scratch.dir, tag + '.json')
    with open(path, 'w') as f:
        json.dump({'cases': [{k: v for k, v in c.items() if k != 'song'} for c in cases], 'mems': mems}, f)
    r = chk.tlc(module, 'SPECIFICATION Spec\n' + ''.join('INVARIANT %s\n' % i for i in invs), env={'CASES': path})
    if not r.ok:
        cid = int(r.state.get('cid', '0'))
        c = cases[cid - 1] if cid else None
        what = r.state.get('err', r.violated)
        chk.violation('%s: %s' % (r.violated, what[:600]),
                      {'module': module, 'invariant': r.violated, 'err': what, 'state': r.state,
                       'case': {k: v for k, v in (c or {}).items() if k not in ('song',)},
                       'memory': mems[c['mem'] - 1] if c else None},
                      files=[c['song']['file']] if c else [])
    done = {}
    for p in r.prints:
        m = re.match(r'<<"@", (\d+)(?:, (.*))?>>', p)
        done[int(m.group(1))] = m.group(2)
    if len(done) != len(cases):
        raise vt.ToolError('TLC finished %d of %d cases of %s' % (len(done), len(cases), module))
    chk.count(traces_validated_against_impl=len(cases))
    tot = [0] * 8
    for v in done.values():
        for i, x in enumerate((v or '').split(', ')):
            tot[i] += int(x)
    return cases, tot
