"""The checks, one function per property. Every verdict is TLC's: the functions make inputs, run
the tool on them, hand what it did to a specification and turn a violated invariant into a replay."""
import json
import os
import re
import shutil
import time

import midi
import play
import rom
import song
import vt
from vt import THOROUGH


def scale(quick, thorough):
    return thorough if THOROUGH else quick


def q(x):
    return '"%s"' % x


def design(chk, module, consts, invs, bugs=(), cfg=''):
    """Explores a design model exhaustively; each named broken design must be rejected."""
    base = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % i for i in invs) + cfg + \
        'CONSTANTS\n' + ''.join('%s = %s\n' % kv for kv in consts.items())
    r = chk.tlc(module, base + ('BUG = "none"\n'))
    if not r.ok:
        raise vt.ToolError('design model %s violates %s: %s' % (module, r.violated, r.state))
    chk.count(design_states=r.distinct)
    for b in bugs if THOROUGH else bugs[:1]:
        rb = vt.tlc(module, base + 'BUG = "%s"\n' % b)
        if rb.ok:
            raise vt.ToolError('design model %s does not reject the broken design %s' % (module, b))
        chk.count(broken_designs_rejected=1)
    return r


def done_lines(r):
    out = {}
    for p in r.prints:
        m = re.match(r'<<"@", (\d+)(?:, (.*))?>>', p)
        out[int(m.group(1))] = m.group(2) or ''
    return out


def validate(chk, module, data, ncases, invs, describe, tag):
    """Runs a trace specification over recorded cases. describe(cid) gives the replay data and files."""
    if not ncases:
        return {}
    path = os.path.join(chk.scratch.dir, tag + '.json')
    with open(path, 'w') as f:
        json.dump(data, f)
    r = chk.tlc(module, 'SPECIFICATION Spec\n' + ''.join('INVARIANT %s\n' % i for i in invs), env={'CASES': path})
    os.unlink(path)
    if not r.ok:
        cid = int(r.state.get('cid', '0'))
        info, files = describe(cid - 1) if cid else ({}, [])
        what = r.state.get('err', '') or str(r.violated)
        chk.violation('%s: %s' % (r.violated, what[:600]),
                      {'module': module, 'invariant': r.violated, 'case': info, 'state': r.state}, files)
    d = done_lines(r)
    if len(d) != ncases:
        raise vt.ToolError('TLC finished %d of %d cases of %s' % (len(d), ncases, module))
    chk.count(traces_validated_against_impl=ncases)
    return d


def broke(chk, o, what, files=()):
    """A build of good songs may run out of room; it may not crash or hang."""
    if o.kind in ('crash', 'hang'):
        files = files() if callable(files) else files
        chk.violation('%s ends in a %s' % (what, o.kind), {'message': o.tail()}, files)


def need_some(chk, items, what, files=()):
    """Inputs the tool must be able to handle: at least one has to be left to look at."""
    if not items:
        chk.violation('none of the %s succeeds' % what, {}, files)


def folder(d):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))][:80]


# ------------------------------------------------------------------ conversions

def convert(chk, songs, tag, modes=('opt', 'raw')):
    """midi2json for every song and mode; returns [{mode: (outcome, json or None)}]."""
    d = os.path.join(chk.scratch.dir, tag)
    os.makedirs(d, exist_ok=True)

    def one(i):
        s = songs[i]
        f = os.path.join(d, '%05d.mid' % i)
        midi.write(f, s['tpb'], s['tracks'], running=s.get('running', False))
        s['file'] = f
        res = {}
        for m in modes:
            out = f + '.' + m + '.json'
            o = chk.tool.run((['-s'] if m == 'raw' else []) + ['midi2json', f, out])
            res[m] = (o, song.load(out) if o.kind == 'ok' else None)
            if os.path.exists(out):
                os.unlink(out)
        return res
    return vt.pmap(one, range(len(songs)))


def word_corpus(chk):
    """Melodies spelling words over a few commands: exhaustively the binary words, and random words
    with rests, portamento notes, program changes, and several voices."""
    import itertools
    rng = chk.rng
    out = []
    for n in range(8, scale(10, 12) + 1):
        for w in itertools.product('ab', repeat=n):
            if w[0] == 'a':
                out.append([''.join(w)])
    for _ in range(scale(500, 6000)):
        al = rng.choice(['abc', 'ab', 'abr', 'abd', 'ade', 'abde', 'abp', 'abrp', 'de', 'adr'])
        nv = rng.choice([1, 1, 2, 2, 3])
        ws = []
        for _ in range(nv):
            n = rng.randint(4, 20)
            w = ''.join(rng.choice(al) for _ in range(n))
            if rng.random() < 0.6:
                p = ''.join(rng.choice(al) for _ in range(rng.randint(1, 6)))
                w = w[:rng.randint(0, 6)] + p * rng.randint(2, 5) + w[:rng.randint(0, 8)]
            ws.append(w)
        if nv > 1 and rng.random() < 0.5:
            ws[1] = ws[0][rng.randint(0, 3):] + ws[1][:4]
        out.append(ws)
    return [dict(midi.word_song(ws, dur=rng.choice([6, 6, 24])), words=ws) for ws in out]


def repetitive_corpus(chk):
    return [midi.gen_repetitive(chk.rng, chk.rng.choice([20, 60, 60, 150])) for _ in range(scale(150, 1500))]


def counted_corpus(chk):
    """A bar that also occurs on its own, repeated more and more often up to more than a byte can count."""
    rng = chk.rng
    out = []
    for k in [1, 2, 3, 4, 5, 8, 13, 31, 64, 127, 128, 129, 254, 255, 256, 257, 300, 520][::scale(2, 1)] + [256, 300]:
        n = rng.choice([4, 4, 5, 6])
        p = [(60 + i, rng.choice([6, 12]), 0) for i in range(n)]
        out.append({'tpb': 24, 'tracks': [midi.mono(p + [(70, 6, 0)] + p + [(71, 6, 0)] + p * k + [(72, 6, 0)])]})
    return out


def loop_corpus(chk):
    return word_corpus(chk) + repetitive_corpus(chk) + counted_corpus(chk) + \
        [midi.gen_song(chk.rng, nnotes=60) for _ in range(scale(20, 200))] + \
        [midi.big_song(chk.rng, k) for k in ['long', 'many', 'shared'] * scale(2, 15)]


LOOPOPT = {'Alphabet': '{"a", "b", "s"}', 'MaxLen': '7', 'NVoices': '1', 'MinBody': '2', 'MaxSteps': '2'}
LOOPOPT2 = {'Alphabet': '{"a", "b"}', 'MaxLen': '4', 'NVoices': '2', 'MinBody': '2', 'MaxSteps': '2'}


def c01(chk):
    design(chk, 'MLoopOpt', LOOPOPT, ['Lossless', 'SlidesWhole'], ['overlap', 'nested', 'short'])
    design(chk, 'MLoopOpt', dict(LOOPOPT2, MaxLen=scale('4', '5')), ['Lossless'])
    songs = loop_corpus(chk)
    res = convert(chk, songs, 'conv')
    cases, norm, src = [], [], []
    for s, r in zip(songs, res):
        (oo, so), (orr, sr) = r['opt'], r['raw']
        if oo.kind != orr.kind:
            chk.violation('conversion with compression: %s, without: %s' % (oo.kind, orr.kind),
                          {'compressed': oo.tail(), 'uncompressed': orr.tail()}, [s['file']])
        if so is None:
            chk.count(songs_not_converted=1)
            continue
        norm += [song.normalise(so), song.normalise(sr)]
        cases.append({'a': {'kind': 'song', 'song': len(norm) - 1}, 'b': {'kind': 'song', 'song': len(norm)},
                      'skip': False, 'raw': True})
        src.append(s)
    need_some(chk, cases, 'conversions', [s['file'] for s in songs[:30]])
    chk.count(songs_with_loops=sum(1 for i in range(0, len(norm), 2) if len(norm[i]['seqs']) > len(norm[i]['voices'])))
    chk.sample({'words': src[0].get('words'), 'compressed': norm[0]})
    d = validate(chk, 'TTwin', {'cases': cases, 'songs': norm, 'mems': []}, len(cases), ['Same'],
                 lambda i: ({'compressed': norm[2 * i], 'uncompressed': norm[2 * i + 1]}, [src[i]['file']]), 'c01')
    chk.count(commands_compared=sum(int(x.split(', ')[1]) for x in d.values()))


def c02(chk):
    design(chk, 'MLoopOpt', LOOPOPT, ['Executable'], ['nested'])
    songs = loop_corpus(chk)
    res = convert(chk, songs, 'conv')
    norm, src = [], []
    for s, r in zip(songs, res):
        for m in ('opt', 'raw'):
            if r[m][1] is not None:
                norm.append(song.normalise(r[m][1]))
                src.append(s)
    need_some(chk, norm, 'conversions', [s['file'] for s in songs[:30]])
    chk.sample(norm[0])
    d = validate(chk, 'TLoop', {'songs': norm}, len(norm), ['C02'],
                 lambda i: (norm[i], [src[i]['file']]), 'c02')
    chk.count(songs_with_loops=sum(1 for x in d.values() if x.endswith(' 1')))


# ------------------------------------------------------------------ ROM against ROM

def build_files(chk, d, rpath, image, layout, entries, opts=(), timeout=120):
    """Writes image to rpath, runs build_rom with the entries; returns (outcome, new image)."""
    rom.write_manifest(os.path.join(d, 'm.json'), entries)
    with open(rpath, 'wb') as f:
        f.write(image)
    o = chk.tool.run(list(opts) + ['build_rom', os.path.join(d, 'm.json'), rpath] + layout.args(), timeout=timeout)
    with open(rpath, 'rb') as f:
        return o, f.read()


def random_areas(rng, small=False):
    """A ROM whose banks switch from the main to the overflow area somewhere."""
    mains = [rng.choice([0x48, 0x100, 0x400, rng.randint(0x46, 0x2000)]) for _ in range(3)]
    return rom.make(rng, mains, [0xB000] * 3, ovbase=[rng.choice([0x400, 0x1800, 0x1FFF])] * 3, area_fill=0xff,
                    bases=random_bases(rng) if rng.random() < 0.5 else None)


def c03(chk):
    rng = chk.rng
    cases, mems, src = [], [], []
    for k in range(scale(6, 40)):
        songs = [midi.gen_repetitive(rng, rng.choice([20, 60, 120])) for _ in range(26)] + \
                [midi.gen_song(rng, nnotes=40) for _ in range(8)]
        d = os.path.join(chk.scratch.dir, 'b%d' % k)
        os.makedirs(d, exist_ok=True)
        ent = []
        for i, s in enumerate(songs):
            s['file'] = os.path.join(d, '%02d.mid' % i)
            midi.write(s['file'], s['tpb'], s['tracks'])
            ent.append({'input': '%02d.mid' % i, 'loop': rng.random() < 0.5})
        image, lay = random_areas(rng)
        o1, r1 = build_files(chk, d, os.path.join(d, 'a.smc'), image, lay, ent)
        o2, r2 = build_files(chk, d, os.path.join(d, 'b.smc'), image, lay, ent, ['-s'])
        if o1.kind != 'ok' or o2.kind != 'ok':
            chk.count(builds_failed=1)
            for o in (o1, o2):
                broke(chk, o, 'a build of valid songs', lambda: folder(d))
            if o2.kind == 'ok' and o1.kind != 'ok':
                chk.violation('the build with compression fails, the one without succeeds', {'err': o1.tail()},
                              [os.path.join(d, 'm.json')] + [s['file'] for s in songs])
            continue
        base = len(mems)
        mems += [rom.memory(r1, lay, b, 0xff) for b in range(3)] + [rom.memory(r2, lay, b, 0xff) for b in range(3)]
        for i, s in enumerate(songs):
            b = play.bank_of(i)
            cases.append({'a': {'kind': 'rom', 'mem': base + b + 1, 'slot': i},
                          'b': {'kind': 'rom', 'mem': base + b + 4, 'slot': i}, 'skip': False, 'raw': False})
            src.append(s)
    need_some(chk, cases, 'builds')
    d = validate(chk, 'TTwin', {'cases': cases, 'songs': [], 'mems': mems}, len(cases), ['Same'],
                 lambda i: ({'case': cases[i], 'with': mems[cases[i]['a']['mem'] - 1],
                             'without': mems[cases[i]['b']['mem'] - 1]}, [src[i]['file']]), 'c03')
    chk.count(events_compared=sum(int(x.split(', ')[1]) for x in d.values()))
    chk.sample({'tracks': src[0]['tracks'][:2], 'case': cases[0]})


# ------------------------------------------------------------------ ROM against song

def encode_songs(chk, n):
    """Explores MEncode and returns n songs of eight of its behaviours each."""
    design(chk, 'MEncode', {'MaxBody': scale('1', '2'), 'MaxVoice': '3', 'EMIT': 'FALSE'}, ['ReadsBack'],
           ['lose', 'forget', 'carry', 'bare', 'zero'])
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nBUG = "none"\nEMIT = TRUE\nMaxBody = %d\nMaxVoice = %d\n'
    r1 = vt.tlc('MEncode', cfg % (1, scale(2, 3)))
    r2 = vt.tlc('MEncode', cfg % (3, 7), extra=['-simulate', 'num=%d' % scale(600, 6000), '-depth', '12', '-seed',
                                               str(chk.rng.randint(1, 10**6))], workers=1)
    out = []
    for r in (r1, r2):
        rows = sorted(set(r.prints))
        chk.rng.shuffle(rows)
        beh = []
        for p in rows[:8 * (n // 2)]:
            b, v = eval(p[p.index('"<<') + 1:p.rindex('"')].replace('<<', '[').replace('>>', ']'))
            beh.append((b, v))
        chk.count(model_behaviours_replayed=len(beh))
        out += [song.encode_song(chk.rng, beh[i:i + 8]) for i in range(0, len(beh), 8)]
    chk.rng.shuffle(out)
    return out


def c04(chk):
    rng = chk.rng
    cases, mems, songs, src = [], [], [], []
    enc = encode_songs(chk, scale(90, 700))
    for k in range(scale(10, 80)):
        js = [song.gen_json(rng, rng.choice([5, 40, 40, 120])) for _ in range(17)] + enc[9 * k:9 * k + 9]
        ms = [midi.gen_repetitive(rng, 60) if rng.random() < 0.5 else midi.gen_song(rng) for _ in range(8)]
        js += [r['opt'][1] for r in convert(chk, ms, 'm%d' % k, ('opt',)) if r['opt'][1] is not None]
        js = js[:31]        # and one of very many sequences, one of long voices
        js.append(song.gen_json(rng, 150, bodies=rng.choice([100, 250, 260, 300])))
        js.append(song.gen_json(rng, rng.choice([400, 800])))
        while len(js) < 34:
            js.append(song.gen_json(rng))
        rng.shuffle(js)
        d = os.path.join(chk.scratch.dir, 'b%d' % k)
        os.makedirs(d, exist_ok=True)
        ent = []
        for i, s in enumerate(js):
            with open(os.path.join(d, '%02d.json' % i), 'w') as f:
                json.dump(s, f)
            ent.append({'input': '%02d.json' % i, 'loop': rng.random() < 0.5})
        image, lay = random_areas(rng)
        o, r = build_files(chk, d, os.path.join(d, 'r.smc'), image, lay, ent)
        if o.kind != 'ok':
            chk.violation('a valid song in JSON form cannot be built (%s)' % o.kind, {'err': o.tail()},
                          [os.path.join(d, 'm.json'), os.path.join(d, 'r.smc')] +
                          [os.path.join(d, '%02d.json' % i) for i in range(34)])
        base = len(mems)
        mems += [rom.memory(r, lay, b, 0xff) for b in range(3)]
        for i, s in enumerate(js):
            for p in range(len(s['parts'])):
                songs.append(song.normalise(s, p))
                cases.append({'a': {'kind': 'rom', 'mem': base + play.bank_of(i) + 1, 'slot': i},
                              'b': {'kind': 'song', 'song': len(songs)}, 'skip': True, 'raw': False,
                              'part': p + 1, 'parts': len(s['parts'])})
                src.append(os.path.join(d, '%02d.json' % i))
    d = validate(chk, 'TTwin', {'cases': cases, 'songs': songs, 'mems': mems}, len(cases), ['Same'],
                 lambda i: ({'case': cases[i], 'song': songs[i], 'memory': mems[cases[i]['a']['mem'] - 1]},
                            [src[i]]), 'c04')
    chk.count(events_compared=sum(int(x.split(', ')[1]) for x in d.values()))
    chk.sample(songs[0])


# ------------------------------------------------------------------ converted songs against MIDI

def tplay(chk, songs, invs):
    r = play.run_tplay(chk, songs, invs)
    if r:
        cases, tot = r
        chk.count(notes_expected=tot[0], tempo_changes_expected=tot[1], voices_executed=tot[2])
        s = cases[0]['song']
        chk.sample({'tpb': s['tpb'], 'tracks': s['tracks']})


def mixed(chk, n, **kw):
    """Songs of every kind the generators make."""
    rng = chk.rng
    out = []
    for _ in range(n):
        x = rng.random()
        s = midi.gen_shared(rng) if x < 0.35 else midi.gen_song(rng, **kw)
        if rng.random() < 0.35:
            s = midi.unison(rng, s)
        s = midi.add_porta(rng, s, 0.25)
        if rng.random() < 0.12:
            s = midi.hanging(rng, s)
        out.append(midi.add_tail(rng, s, 0.3))
    return out


def c05(chk):
    rng = chk.rng
    songs = mixed(chk, 34 * scale(5, 60), odd_tpb=0.4)
    for _ in range(34 * scale(1, 10)):      # long songs: errors must not add up
        songs.append(midi.gen_song(rng, channels=rng.choice([1, 1, 2]), nnotes=300, odd_tpb=0.6, longp=0.05,
                                   poly=False, tempos=1, settings=0.1))
    songs += quant_songs(chk, scale(40, 400), ['nodrift', 'reset', 'up', 'down', 'fresh'])
    songs += midi.far_songs(rng, scale(12, 100))
    rng.shuffle(songs)
    tplay(chk, songs, ['C05'])


def c06(chk):
    rng = chk.rng
    songs = [midi.add_tail(rng, midi.add_porta(rng, midi.gen_shared(rng) if rng.random() < 0.4 else
                           midi.gen_song(rng, odd_tpb=0.4, nnotes=rng.choice([5, 40, 150])), 0.2), 0.7)
             for _ in range(34 * scale(5, 60))]
    songs += quant_songs(chk, scale(40, 400), ['reset', 'nodrift', 'up'])
    songs += [midi.add_tail(rng, s, 0.5) for s in midi.far_songs(rng, scale(6, 100))]
    rng.shuffle(songs)
    tplay(chk, songs, ['C06'])


def c07(chk):
    rng = chk.rng
    songs = mixed(chk, 34 * scale(5, 70), odd_pitch=0.5)
    songs += alloc_songs(chk, scale(60, 1500), ['leak', 'merge'])
    songs += [s for _ in range(scale(1, 30)) for s in midi.sweep_songs(rng)] + midi.far_songs(rng, scale(2, 40))
    rng.shuffle(songs)
    tplay(chk, songs, ['C07'])


def c10(chk):
    rng = chk.rng
    songs = [midi.add_porta(rng, midi.gen_shared(rng, settings=1.0) if rng.random() < 0.6 else
                            midi.gen_song(rng, settings=1.0), 0.2)
             for _ in range(34 * scale(5, 70))]
    songs = [midi.unison(rng, s) if k % 4 == 0 else s for k, s in enumerate(songs)]
    songs += alloc_songs(chk, scale(80, 2000), ['stale', 'noresend', 'intrude'])
    songs += [s for _ in range(scale(1, 30)) for s in midi.sweep_songs(rng)]
    rng.shuffle(songs)
    tplay(chk, songs, ['C10'])


def c11(chk):
    rng = chk.rng
    songs = alloc_songs(chk, scale(50, 1000), drum=True, setting='pc')
    songs += [s for _ in range(scale(1, 30)) for s in midi.drum_sweep(rng)]
    for _ in range(34 * scale(5, 70)):
        if rng.random() < 0.5:
            s = midi.gen_shared(rng, drums=True, groups=rng.choice([1, 1, 2, 3]), max_ch=rng.choice([2, 3, 6]))
        else:
            s = midi.gen_song(rng, drums=True, channels=rng.choice([1, 2, 3, 5]), settings=0.6)
        songs.append(midi.unison(rng, s) if rng.random() < 0.3 else s)
    tplay(chk, songs, ['C11'])


def c12(chk):
    rng = chk.rng
    songs = [midi.add_tail(rng, midi.add_porta(rng, midi.gen_shared(rng, tempos=15) if rng.random() < 0.3 else
                           midi.gen_song(rng, tempos=20, odd_tpb=0.3, nnotes=rng.choice([10, 30, 60])), 0.2), 0.4)
             for _ in range(34 * scale(5, 70))]
    songs += quant_songs(chk, scale(40, 400), ['up', 'reset', 'nodrift'], marks=('tempo',))
    songs += midi.far_songs(rng, scale(6, 100), tempos=8)
    rng.shuffle(songs)
    tplay(chk, songs, ['C12'])


# ------------------------------------------------------------------ the design model of times

QUANT_INVS = ['StartsInTime', 'EndsInTime', 'MarksInTime', 'ClosesInTime']


def quant_songs(chk, n, bugs=(), marks=('cc', 'pc', 'tempo', 'cc')):
    """Explores MQuant and returns n songs of eight of its behaviours each."""
    tset = lambda xs: '{%s}' % ', '.join(map(str, xs))
    design(chk, 'MQuant', {'TPBs': tset(scale([24, 25, 30, 48], [24, 25, 26, 30, 36, 47, 48, 49, 60, 72, 100])),
                           'Ds': tset(scale([1, 2, 5, 25, 127, 200], [1, 2, 3, 5, 12, 25, 127, 128, 200])), 'MaxEv': '1',
                           'EMIT': 'FALSE'}, QUANT_INVS, bugs)
    songs = []
    rng = chk.rng
    for tpb in [24, 25, 47, 48, 96, 100, 120, 479, 480, 1000]:
        k = -(-tpb // 24)
        ds = sorted({1, k, k + 1, 2 * k - 1, 5 * k, 127 * tpb // 24, -(-127 * tpb // 24), 128 * tpb // 24, 255 * tpb // 24, 13 * k + 1})
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nBUG = "none"\nEMIT = TRUE\nTPBs = {%d}\nDs = %s\nMaxEv = %d\n' \
            % (tpb, tset(ds), rng.choice([3, 8, 8, 20]))
        if len(songs) >= n or (not THOROUGH and rng.random() < 0.6):
            continue
        r = vt.tlc('MQuant', cfg, extra=['-simulate', 'num=%d' % scale(30, 150), '-depth', '22', '-seed', str(rng.randint(1, 10**6))], workers=1)
        words = set()
        for p in r.prints:
            x = [int(i) for i in re.findall(r'-?\d+', p)]
            words.add(tuple(tuple(x[i:i + 3]) for i in range(1, len(x), 3)))
        words = sorted(words)
        rng.shuffle(words)
        for i in range(0, min(len(words), 8 * (n // scale(4, 10) + 1)), 8):
            songs.append(midi.quant_song(rng, tpb, words[i:i + 8], marks))
        chk.count(model_behaviours_replayed=len(words))
    return songs


# ------------------------------------------------------------------ the design model of playing channels on voices

ALLOC_INVS = ['OneNotePerVoice', 'AllSound', 'NothingLeft', 'OwnProgram', 'RefusedOnlyIfFull']


def alloc_histories(chk, bugs):
    """Explores MAlloc and returns histories of it: all short ones and random long ones.
    [(start, refused, events)]"""
    design(chk, 'MAlloc', {'MaxEv': '1', 'EMIT': 'FALSE'}, ALLOC_INVS, bugs)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nBUG = "none"\nEMIT = TRUE\nMaxEv = %d\n'
    r1 = vt.tlc('MAlloc', cfg % scale(4, 5))
    r2 = vt.tlc('MAlloc', cfg % 14, extra=['-simulate', 'num=%d' % scale(300, 3000), '-depth', '16', '-seed', str(chk.rng.randint(1, 10**6))], workers=1)
    out = []
    for r in (r1, r2):
        rows = set()
        for p in r.prints:
            x = [int(i) for i in re.findall(r'-?\d+', p)]
            rows.add((x[0], x[2], tuple(tuple(x[i:i + 3]) for i in range(3, len(x), 3))))
        if not rows:
            raise vt.ToolError('no behaviours of MAlloc')
        rows = sorted(rows)
        chk.rng.shuffle(rows)
        out.append(rows)
    return out[0], out[1]


def alloc_songs(chk, n, bugs=(), refused=False, **kw):
    """n songs replaying behaviours of MAlloc (several short ones or one long one each)."""
    short, long = alloc_histories(chk, bugs)
    songs = []
    for rows, per in ((short, 4), (long, 1)):
        rows = [r for r in rows if (r[1] == 1) == refused]
        for st in (0, 1):
            hs = [r[2] for r in rows if r[0] == st]
            step = 1 if refused else per
            hs = hs[:n * step // 4 + 1]
            chk.count(model_behaviours_replayed=len(hs))
            for i in range(0, len(hs), step):
                songs.append(midi.alloc_song(chk.rng, st, hs[i:i + step], **kw))
    return songs


# ------------------------------------------------------------------ polyphony

def note_channels(s):
    return sorted({e[2] for t in s['tracks'] for e in t if e[1] == 'on'})


def voices_cases(chk, songs, tag):
    """Converts every song (to JSON, and one in three into a ROM) and records what happened."""
    d = os.path.join(chk.scratch.dir, tag)
    os.makedirs(d, exist_ok=True)

    def one(i):
        s = songs[i]
        f = os.path.join(d, '%05d.mid' % i)
        midi.write(f, s['tpb'], s['tracks'], running=s.get('running', False))
        s['file'] = f
        out = f + '.json'
        o = chk.tool.run((['-s'] if i % 3 == 0 else []) + ['midi2json', f, out])
        produced = os.path.exists(out)
        if produced:
            os.unlink(out)
        return {'tracks': midi.to_model(s['tracks']), 'nch': len(note_channels(s)), 'chans': note_channels(s),
                'partition': s.get('partition') or [], 'outcome': o.kind, 'produced': produced}
    return vt.pmap(one, range(len(songs)))


def voices(chk, songs, inv, tag):
    cases = voices_cases(chk, songs, tag)
    d = validate(chk, 'TVoices', {'cases': cases}, len(cases), [inv],
                 lambda i: ({'outcome': cases[i]['outcome']}, [songs[i]['file']]), tag)
    rows = [[int(x) for x in v.split(', ')] for v in d.values()]
    chk.count(must_be_refused=sum(r[0] for r in rows), must_be_converted=sum(r[1] for r in rows),
              shareable=sum(r[2] for r in rows), converted=sum(c['outcome'] == 'ok' for c in cases))
    return cases


def c08(chk):
    rng = chk.rng
    songs = []
    for _ in range(scale(250, 3000)):
        nch = rng.choice([1, 1, 1, 2, 3, 5, 7, 8])
        songs.append(midi.gen_dense(rng, nch, max(nch, rng.choice([6, 7, 8, 8, 8, 9, 9, 10])),
                                    rng.choice([20, 40, 80]), drums=rng.random() < 0.2))
    songs += alloc_songs(chk, scale(40, 800), ['leak', 'merge']) + alloc_songs(chk, scale(40, 800), refused=True)
    rng.shuffle(songs)
    cases = voices(chk, songs, 'C08', 'dense')
    chk.sample({'tracks': songs[0]['tracks'], 'outcome': cases[0]['outcome']})
    # what is converted is reproduced fully
    ok = [s for s, c in zip(songs, cases) if c['outcome'] == 'ok'][:34 * scale(4, 40)]
    tplay(chk, ok, ['C07', 'C05'])
    # refused: nothing of the song reaches a ROM
    bad = [s for s, c in zip(songs, cases) if c['outcome'] == 'error'][:scale(20, 200)]
    image, lay = rom.roomy(rng, pre=1, post=1)

    def one(i):
        f = os.path.join(chk.scratch.dir, 'bad%d.smc' % i)
        with open(f, 'wb') as h:
            h.write(image)
        o = chk.tool.run(['all_overworld', bad[i]['file'], f])
        same = open(f, 'rb').read() == image
        os.unlink(f)
        return {'tracks': midi.to_model(bad[i]['tracks']), 'nch': len(note_channels(bad[i])),
                'chans': note_channels(bad[i]), 'partition': [], 'outcome': o.kind, 'produced': not same}
    rc = vt.pmap(one, range(len(bad)))
    validate(chk, 'TVoices', {'cases': rc}, len(rc), ['C08'],
             lambda i: ({'outcome': rc[i]['outcome'], 'rom_changed': rc[i]['produced']}, [bad[i]['file']]), 'badrom')


def c09(chk):
    rng = chk.rng
    # the design model; its shareable patterns are replayed
    consts = {'NCh': '4', 'NSlots': '3', 'NVoices': '2', 'EMIT': 'TRUE'}
    r = design(chk, 'MVoice', consts, ['FoundIsSharing', 'RefusedOnlyIfNone'], ['greedy', 'order'],
               'PROPERTY Terminates\n')
    pats = []
    for p in r.prints:
        m = re.match(r'<<"@", <<(.*)>>, TRUE>>', p)
        if m:
            pats.append([{int(x) for x in g.split(',') if x.strip()} for g in re.findall(r'\{([^}]*)\}', m.group(1))])
    rng.shuffle(pats)
    songs = []
    for a in pats[:scale(250, len(pats))]:
        s = midi.pattern_song(a, 6)
        # a witness: some assignment of the four channels to the two voices left
        import itertools
        for f in itertools.product((0, 1), repeat=4):
            if all(f[i] != f[j] or not (a[i] & a[j]) for i in range(4) for j in range(i)):
                s['partition'] = [[c for c in range(4) if f[c] == g] for g in (0, 1)] + [[c] for c in s['bg']]
                break
        if any(a):
            songs.append(midi.relabel(rng, s) if rng.random() < 0.7 else s)
    chk.count(model_behaviours_replayed=len(songs))
    for _ in range(scale(300, 4000)):
        s = midi.gen_shared(rng, groups=rng.choice([4, 6, 7, 8, 8, 8, 8]), nnotes=rng.choice([20, 40, 80]), poly=False,
                            settings=rng.choice([0, 0.2]), tempos=rng.choice([0, 2]), maxruns=rng.choice([1, 2, 6]))
        songs.append(midi.relabel(rng, s))
    voices(chk, songs, 'C09', 'shared')
    chk.sample({'tracks': songs[-1]['tracks'], 'partition': songs[-1]['partition']})


# ------------------------------------------------------------------ the ROM file

def json_voices(js):
    return sum(1 for v in js['parts'][0]['tracks'] if js['tracks'][v]['commands'])


EMPTY_SONG = {'parts': [{'tracks': []}], 'tracks': []}


def small_songs(rng, n, size=8, spare=0.1):
    """Small songs as JSON or MIDI, empty ones among them."""
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.6:
            out.append(('json', song.gen_json(rng, rng.choice([1, size, size]), spare=spare)))
        elif x < 0.65:
            out.append(('json', EMPTY_SONG))
        elif x < 0.85:
            out.append(('mid', midi.gen_repetitive(rng, 4 * size)))
        else:
            out.append(('mid', midi.gen_song(rng, nnotes=size, channels=rng.choice([1, 2, 3]))))
    return out


def write_songs(d, songs):
    """Files for the songs; returns [(file name, number of voices or -1)]."""
    os.makedirs(d, exist_ok=True)
    out = []
    for i, (kind, s) in enumerate(songs):
        f = 's%02d.%s' % (i, kind)
        if kind == 'json':
            with open(os.path.join(d, f), 'w') as h:
                json.dump(s, h)
            out.append((f, json_voices(s)))
        else:
            midi.write(os.path.join(d, f), s['tpb'], s['tracks'], running=s.get('running', False))
            out.append((f, -1))
    return out


def used(image, lay, fill=0xff):
    """Bytes the songs of each bank take in a roomy ROM (table included)."""
    return [len(rom.memory(image, lay, b, fill)['m']) for b in range(3)]


def random_bases(rng):
    """Bank pointers anywhere in the low part of the ROM, not overlapping."""
    if rng.random() < 0.4:
        return None
    while True:
        b = [rng.randrange(0x10, 0xf00) for _ in range(3)]
        if rng.random() < 0.3:             # as the console sees it, or behind the songs
            b = [rng.choice([x, x | 0x8000, rom.snes(0x80000 + x)]) for x in b]
        offs = [rom.pc(x + o) for x in b for o in (0, 4, 8)]
        if len(set(offs)) == 9:
            return b


def big_pad(rng, sure=False):
    """Distance between the banks: some ROMs have more than 64 KB, 1 MB, 2 MB between them;
    in some, banks lie behind the first 4 MB."""
    if sure or rng.random() < 0.06:
        return rng.choice([0x124000, 0x160000, 0x1c0000])
    return rng.choice([None, None, 0x9000, 0x21000])


def tight_rom(rng, need, spare=(0, 1, 5, 100, 2000), **kw):
    """A ROM in which the songs fit, partly in the main and partly in the overflow areas."""
    mains, overs = [], []
    for b in range(3):
        lo = rom.FIRST_SONG[b]
        m = rng.choice([lo, need[b], need[b] + rng.choice(spare), rng.randint(lo, max(lo, need[b])),
                        rng.randint(lo, max(lo, need[b]))])
        mains.append(rng.randint(1, lo - 1) if rng.random() < 0.02 else m)
        # as large as the songs, or just as large as what the main area leaves (a piece may be moved)
        overs.append(need[b] + 50 + rng.choice(spare) if rng.random() < 0.5 else
                     max(30, need[b] - m + rng.choice([60, 200, 500])))
        if rng.random() < 0.04:            # no second area
            mains[b], overs[b] = rng.choice([need[b], need[b] + 1, need[b] + 100, need[b] - 1]), 0
    return rom.make(rng, mains, overs, ovbase=[rng.choice([0x400, 0x1800, 0x2b00]) for _ in range(3)],
                    bases=random_bases(rng), shuffle=True, **kw)


def rom_builds(chk, n, tag, ops=('build',)):
    """Successful builds of small songs into ROMs of many shapes. Yields dicts."""
    rng = chk.rng
    jobs = []
    for k in range(n):
        d = os.path.join(chk.scratch.dir, '%s%d' % (tag, k))
        songs = small_songs(rng, rng.choice([34, 34, 5]), rng.choice([3, 8, 20]))
        files = write_songs(d, songs)
        np = [len(s['parts']) if kind == 'json' else 1 for kind, s in songs]
        pick = [rng.randrange(len(files)) if len(files) < 34 else i for i in range(34)]
        ent, loops = [], []
        for i in range(34):
            e = {'input': files[pick[i]][0]}
            l = rng.choice([True, False, None])
            if l is not None:
                e['loop'] = l
            if rng.random() < 0.4:
                e['tempoAdjust'] = rng.choice([0.2, 0.3, 1])
            ent.append(e)
            loops.append('once' if l is False else 'loop')
        op = rng.choice(ops)
        if op == 'all_overworld':
            f = rng.randrange(len(files))
            args = ['all_overworld', os.path.join(d, files[f][0])]
            loops = ['loop'] * 34
            vo, parts = [files[f][1]] * 34, [np[f]] * 34
        elif op == 'file_select':
            f = rng.randrange(len(files))
            args = ['file_select', os.path.join(d, files[f][0])]
            loops = ['empty'] * 34
            loops[10] = 'loop'
            vo = [0] * 34
            vo[10] = files[f][1]
            parts = [1] * 34
            parts[10] = np[f]
        else:
            rom.write_manifest(os.path.join(d, 'm.json'), ent)
            args = ['build_rom', os.path.join(d, 'm.json')]
            vo, parts = [files[p][1] for p in pick], [np[p] for p in pick]
        opts = (['-s'] if rng.random() < 0.3 else []) + (['-v'] if rng.random() < 0.1 else [])
        jobs.append({'d': d, 'args': args, 'opts': opts, 'loops': loops, 'voices': vo, 'parts': parts, 'files': files,
                     'pick': pick, 'op': op, 'seed': rng.random(), 'big': k % 15 == 7})

    def one(j):
        import random
        r = random.Random(j['seed'])
        image, lay = rom.roomy(r, pre=0, post=0)
        f = os.path.join(j['d'], 'roomy.smc')
        with open(f, 'wb') as h:
            h.write(image)
        o = chk.tool.run(j['opts'] + [j['args'][0], j['args'][1], f], timeout=120)
        j['ok'] = False
        if o.kind != 'ok':
            j['outcome'] = o
            return j
        j['need'] = used(open(f, 'rb').read(), lay)
        os.unlink(f)
        image, lay = tight_rom(r, j['need'], pad=big_pad(r, j['big']))
        j['rom'] = os.path.join(j['d'], 'rom.smc')
        with open(j['rom'], 'wb') as h:
            h.write(image)
        o = chk.tool.run(j['opts'] + [j['args'][0], j['args'][1], j['rom']] + lay.args(), timeout=120)
        j['ok'], j['outcome'] = o.kind == 'ok', o
        j['before'], j['lay'] = bytes(image), lay
        j['after'] = open(j['rom'], 'rb').read()
        return j
    jobs = vt.pmap(one, jobs)
    good = [j for j in jobs if j['ok']]
    for j in jobs:
        broke(chk, j['outcome'], 'a build of valid songs', lambda: folder(j['d']))
    need_some(chk, good, 'builds', folder(jobs[0]['d']))
    chk.count(builds=len(jobs), builds_failed=len(jobs) - len(good),
              builds_using_overflow=sum(any(j['need'][b] > j['lay'].banks[b]['main_len'] for b in range(3)) for j in good))
    return good


def rom_check(chk, jobs, want, tag):
    images, cases = [], []
    for j in jobs:
        images.append(rom.windows(j['before'], j['lay']))
        images.append(rom.windows(j['after'], j['lay']))
        cases.append({'want': want, 'before': len(images) - 1, 'after': len(images), 'bases': j['lay'].bases,
                      'size': len(j['before']), 'size2': len(j['after']),
                      'outside': rom.outside(j['before'], j['after'], j['lay']),
                      'loops': j['loops'], 'voices': j['voices'], 'parts': j['parts']})

    def describe(i):
        j = jobs[i]
        files = [os.path.join(j['d'], 'm.json')] + [os.path.join(j['d'], f) for f, _ in j['files']]
        b = os.path.join(j['d'], 'before.smc')
        with open(b, 'wb') as h:
            h.write(j['before'])
        return ({'command': j['opts'] + j['args'] + j['lay'].args(), 'case': cases[i]}, files + [b, j['rom']])
    d = validate(chk, 'TRom', {'cases': cases, 'images': images}, len(cases), ['Held'], describe, tag)
    j = jobs[0]
    chk.sample({'op': j['op'], 'opts': j['opts'], 'bases': j['lay'].bases, 'areas': j['lay'].banks, 'need': j['need']})
    return sum(int(x) for x in d.values())


OPS = ('build', 'build', 'build', 'all_overworld', 'file_select')


def c13(chk):
    jobs = rom_builds(chk, scale(60, 600), 'a', OPS)
    chk.count(bytes_changed=rom_check(chk, jobs, 'diff', 'c13'))


def c14(chk):
    jobs = rom_builds(chk, scale(60, 600), 'a', OPS)
    chk.count(pieces=rom_check(chk, jobs, 'songs', 'c14'))


def c25(chk):
    jobs = rom_builds(chk, scale(60, 600), 'a', OPS)
    chk.count(song_level_steps=rom_check(chk, jobs, 'play', 'c25'))


PACK_BUGS = ['strict', 'unchecked', 'back', 'base', 'table']
PACK_INVS = ['InsideAreas', 'DisjointPieces', 'PointersRight', 'RefusedExactly']


def run_op(chk, j, image, lay, name):
    """Runs the operation of a job on a ROM; returns (outcome, new image)."""
    f = os.path.join(j['d'], name)
    with open(f, 'wb') as h:
        h.write(image)
    o = chk.tool.run(j['opts'] + [j['args'][0], j['args'][1], f] + lay.args(), timeout=120)
    with open(f, 'rb') as h:
        r = h.read()
    os.unlink(f)
    return o, r


def pack_job(chk, k, bank):
    """Songs for one bank (small ones for the others), as a build, file-select or all-overworld."""
    rng = chk.rng
    d = os.path.join(chk.scratch.dir, 'p%d' % k)
    songs = small_songs(rng, 16, rng.choice([2, 6, 12, 30]) if bank < 2 else rng.choice([6, 40, 120]), 0)
    files = write_songs(d, songs)
    ent = []
    for i in range(34):
        e = {'input': files[rng.randrange(16)][0] if play.bank_of(i) == bank else files[0][0]}
        if rng.random() < 0.5:
            e['loop'] = rng.random() < 0.5
        ent.append(e)
    rom.write_manifest(os.path.join(d, 'm.json'), ent)
    op = rng.choice(['build_rom', 'build_rom', 'build_rom', 'file_select', 'all_overworld'])
    return {'d': d, 'opts': ['-s'] if rng.random() < 0.3 else [], 'files': files, 'bank': bank, 'seed': rng.random(),
            'args': [op, os.path.join(d, 'm.json' if op == 'build_rom' else rng.choice(files)[0])]}


def pack_sizes(r, mem, bank, need, n):
    """Area sizes around the ends of pieces."""
    first = rom.FIRST_SONG[bank]
    m = mem['m']
    wd = lambda a: m[a] + 256 * m[a + 1] - rom.MAIN
    ends = {first, need}
    for i in range(len(rom.SLOTS[bank])):
        s = wd(2 * (rom.FIRST[bank] + i))
        p = wd(s)
        ends |= {s, p + 16}
        for v in range(8):
            a = wd(p + 2 * v)
            if a >= 0:
                ends.add(a)
    ends = sorted(e for e in ends if first <= e <= need)
    out = []
    for _ in range(n):
        main = max(first, r.choice(ends + [need, need]) + r.choice([-1, 0, 0, 0, 1]))
        left = need - max([e for e in ends if e <= main])
        over = max(1, left + r.choice([-1, -1, 0, 0, 0, 1, 2, r.randint(-20, 20)]))
        out.append((main, over))
    # no room for the song table
    out[-1] = (r.choice([1, 2 * rom.FIRST[bank] + 1, first - 1, r.randint(1, first - 1)]), need + r.randint(0, 50))
    return out


def pack_songs(chk, units, d):
    """Songs for the ending bank: song k is a voice of units[k] * 24 bytes, found by adding ties."""
    ent = []
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'e.json'), 'w') as f:
        json.dump(EMPTY_SONG, f)
    base = 10        # volume preamble, note with duration and velocity, terminator
    for k, u in enumerate(units):
        cmds = [song.cmd('Note', [0x90], 24, 8, 5)] + [song.cmd('Tie')] * (24 * u - base)
        with open(os.path.join(d, '%d.json' % k), 'w') as f:
            json.dump({'parts': [{'tracks': [0]}], 'tracks': [{'commands': cmds}]}, f)
    ent = [{'input': 'e.json'}] * 31 + [{'input': '%d.json' % k} for k in range(3)]
    rom.write_manifest(os.path.join(d, 'm.json'), ent)
    return {'d': d, 'opts': [], 'args': ['build_rom', os.path.join(d, 'm.json')], 'bank': 2}


def c16(chk):
    rng = chk.rng
    r = design(chk, 'MPack', {'NSongs': '2', 'MaxPiece': '3', 'MaxArea': '8', 'Table': '2', 'EMIT': 'FALSE'}, PACK_INVS, PACK_BUGS)
    # every behaviour of the model with three songs in the ending bank is a build
    r = design(chk, 'MPack', {'NSongs': '3', 'MaxPiece': scale('2', '3'), 'MaxArea': scale('9', '12'), 'Table': '0', 'EMIT': 'TRUE'},
               PACK_INVS)
    beh = {}
    for p in r.prints:
        sz, main, over, fit = re.match(r'<<"@", <<(.*)>>, (\d+), (\d+), (\w+)>>', p).groups()
        u = tuple(int(x) for x in sz.split(','))[1::2]
        beh.setdefault(u, []).append((int(main), int(over), fit == 'TRUE'))
    jobs = []
    for u in sorted(beh):
        j = pack_songs(chk, u, os.path.join(chk.scratch.dir, 'm' + ''.join(map(str, u))))
        # sizes in bytes: exact multiples of a unit, or one byte less where the model says so
        sel = rng.sample(beh[u], min(len(beh[u]), scale(12, 200)))
        j['sizes'] = [(70 + 24 * m, 24 * o) for m, o, _ in sel if o > 0]
        j['sizes'] += [(70 + 24 * m - 1, 24 * o) for m, o, _ in sel if o > 0 and m > 0][:scale(4, 100)]
        j['sizes'] += [(70 + 24 * m, 24 * o - 1) for m, o, _ in sel if o > 0][:scale(4, 100)]
        j['seed'] = rng.random()
        jobs.append(j)
    for k in range(scale(45, 500)):
        jobs.append(pack_job(chk, k, k % 3))

    def one(j):
        import random
        rr = random.Random(j['seed'])
        image, lay = rom.roomy(rr, pre=0, post=0)
        o, after = run_op(chk, j, image, lay, 'roomy.smc')
        if o.kind != 'ok':
            return j, None, o
        b = j['bank']
        need = used(after, lay)[b]
        if need > 0x2f00:
            return j, None, None
        mem = rom.memory(after, lay, b, 0xff)
        case = {'bank': b + 1, 'mem': mem, 'runs': []}
        for main, over in j.get('sizes') or pack_sizes(rr, mem, b, need, scale(8, 12)):
            mains, overs = [0x2ff0] * 3, [0xB000] * 3
            mains[b], overs[b] = main, over
            ov = [0x1800] * 3
            im, la = rom.make(rr, mains, overs, ovbase=ov, pre=0, post=1, area_fill=0xff, pad=0x40, bases=random_bases(rr))
            oo, _ = run_op(chk, j, im, la, 'x.smc')
            case['runs'].append({'main': main, 'over': over, 'outcome': oo.kind})
        return j, case, None
    res = vt.pmap(one, jobs)
    for j, _, o in res:      # more room than any of these songs takes
        if o:
            chk.violation('songs cannot be built into a ROM with room for them (%s)' % o.kind,
                          {'command': j['args'], 'message': o.tail()}, folder(j['d']))
    res = [(j, c) for j, c, _ in res if c and c['runs']]
    cases = [c for _, c in res]
    d = validate(chk, 'TPack', {'cases': cases}, len(cases), ['Held'],
                 lambda i: ({'command': res[i][0]['args'], 'opts': res[i][0]['opts'], 'bank': cases[i]['bank'],
                             'runs': cases[i]['runs']},
                            [os.path.join(res[i][0]['d'], f) for f in sorted(os.listdir(res[i][0]['d']))]), 'c16')
    runs = [x for c in cases for x in c['runs']]
    chk.count(builds=len(runs), builds_refused=sum(x['outcome'] != 'ok' for x in runs),
              model_behaviours_replayed=sum(len(j.get('sizes', [])) for j, _ in res),
              pieces=sum(int(x.split(', ')[0]) for x in d.values()))
    chk.sample({'bank': cases[-1]['bank'], 'runs': cases[-1]['runs'], 'command': res[-1][0]['args'][0]})


def c21(chk):
    rng = chk.rng
    cases, images, jobs = [], [], []
    tw, mems, src = [], [], []
    for k in range(scale(40, 400)):
        d = os.path.join(chk.scratch.dir, 'f%d' % k)
        os.makedirs(d, exist_ok=True)
        need = [rng.choice([300, 1500, 4000, 9000])] * 3
        image, lay = rom.make(rng, [max(0x46, n // rng.choice([1, 2, 4])) for n in need], [n + 4 for n in need],
                              ovbase=[rng.choice([0x400, 0x1800, 0x2b00]) for _ in range(3)], shuffle=True,
                              pad=big_pad(rng))
        src_f, out_f = os.path.join(d, 'orig.smc'), os.path.join(d, 'fake.smc')
        with open(src_f, 'wb') as h:
            h.write(image)
        stale = rng.choice([None, 0, 100, len(image), len(image) + rng.choice([1, 5000])])
        if stale is not None:
            with open(out_f, 'wb') as h:
                h.write(rng.randbytes(stale))
        o = chk.tool.run(['gen_fake_rom', src_f, out_f])
        fake = open(out_f, 'rb').read() if os.path.exists(out_f) else b''
        zero = bytes(len(image))
        images += [rom.windows(image, lay), rom.windows(fake.ljust(len(image), b'\0'), lay)]
        cases.append({'before': len(images) - 1, 'after': len(images), 'bases': lay.bases, 'outcome': o.kind,
                      'size': len(image), 'size2': len(fake), 'nonzero': rom.outside(zero, fake, lay)})
        jobs.append({'d': d, 'files': [src_f, out_f]})
        if k % 2 == 0 and o.kind == 'ok' and len(fake) == len(image):
            # the same songs built into both
            size = rng.choice([1, 3, 6, 10])
            files = write_songs(d, small_songs(rng, 34, size))
            ent = [{'input': files[i][0], 'loop': rng.random() < 0.5} for i in range(34)]
            rom.write_manifest(os.path.join(d, 'm.json'), ent)
            op = rng.choice([['build_rom', os.path.join(d, 'm.json')]] * 3 +
                            [['file_select', os.path.join(d, files[3][0])], ['all_overworld', os.path.join(d, files[3][0])]])
            j = {'d': d, 'opts': ['-s'] if rng.random() < 0.3 else [], 'args': op}
            o1, r1 = run_op(chk, j, image, lay, 'o.smc')
            o2, r2 = run_op(chk, j, fake, lay, 'f.smc')
            chk.count(builds_into_both=1, builds_failing=o1.kind != 'ok')
            broke(chk, o1, 'a build of valid songs', lambda: folder(d))
            if o1.kind != o2.kind:
                chk.violation('building into the original: %s, into the fake ROM: %s' % (o1.kind, o2.kind),
                              {'command': op, 'original': o1.tail(), 'fake': o2.tail()},
                              [src_f, out_f, os.path.join(d, 'm.json')] + [os.path.join(d, f) for f, _ in files])
            if o1.kind == 'ok':
                base = len(mems)
                mems += [rom.memory(r1, lay, b) for b in range(3)] + [rom.memory(r2, lay, b) for b in range(3)]
                for i in range(34):
                    tw.append({'a': {'kind': 'rom', 'mem': base + play.bank_of(i) + 1, 'slot': i},
                               'b': {'kind': 'rom', 'mem': base + play.bank_of(i) + 4, 'slot': i}, 'skip': False, 'raw': False})
                    src.append(d)
    d = validate(chk, 'TFake', {'cases': cases, 'images': images}, len(cases), ['Held'],
                 lambda i: (cases[i], jobs[i]['files']), 'c21')
    chk.count(bytes_decided=sum(int(x) for x in d.values()))
    d = validate(chk, 'TTwin', {'cases': tw, 'songs': [], 'mems': mems}, len(tw), ['Same'],
                 lambda i: (tw[i], [os.path.join(src[i], f) for f in sorted(os.listdir(src[i]))]), 'c21t')
    chk.count(events_compared=sum(int(x.split(', ')[1]) for x in d.values()))
    chk.sample(cases[0])


VOLUME_OPS = ('MasterVolume', 'ChannelVolume', 'PercussionPatchBase')


def c23(chk):
    rng = chk.rng
    cases, mems, src = [], [], []
    for k in range(scale(8, 80)):
        d = os.path.join(chk.scratch.dir, 'v%d' % k)
        songs, plain = [], []
        for _ in range(34):
            x = rng.random()
            if x < 0.5:
                js = song.gen_json(rng, 150, bodies=rng.choice([70, 130])) if x < 0.03 else song.gen_json(rng, rng.choice([3, 20]))
                p = rng.random() < 0.6
                if p:
                    for t in js['tracks']:
                        t['commands'] = [c for c in t['commands'] if not (isinstance(c['command'], dict) and
                                                                        set(c['command']) & set(VOLUME_OPS))] or \
                            ([song.cmd('Note', [0x90], 24, 8, 5)] if t['commands'] else [])
                songs.append(('json', js))
                plain.append(p)
            else:
                s = midi.gen_repetitive(rng, 60) if x < 0.75 else midi.gen_song(rng) if x < 0.9 else midi.gen_shared(rng)
                p = rng.random() < 0.6
                if p:
                    s['tracks'] = [[e for e in t if not (e[1] == 'cc' and e[3] == 7)] for t in s['tracks']]
                songs.append(('mid', s))
                plain.append(p)
        files = write_songs(d, songs)
        rom.write_manifest(os.path.join(d, 'm.json'), [{'input': f, 'loop': rng.random() < 0.5} for f, _ in files])
        image, lay = random_areas(rng)
        j = {'d': d, 'opts': ['-s'] if rng.random() < 0.3 else [], 'args': ['build_rom', os.path.join(d, 'm.json')]}
        o, r = run_op(chk, j, image, lay, 'r.smc')
        if o.kind != 'ok':
            broke(chk, o, 'a build of valid songs', lambda: folder(d))
            chk.count(builds_failed=1)
            continue
        base = len(mems)
        mems += [rom.memory(r, lay, b, 0xff) for b in range(3)]
        for i in range(34):
            for p in range(len(songs[i][1]['parts']) if songs[i][0] == 'json' else 1):
                cases.append({'mem': base + play.bank_of(i) + 1, 'slot': i, 'plain': plain[i], 'part': p + 1})
                src.append(os.path.join(d, files[i][0]))
    need_some(chk, cases, 'builds')
    d = validate(chk, 'TPre', {'cases': cases, 'mems': mems}, len(cases), ['Held'],
                 lambda i: ({'case': cases[i], 'memory': mems[cases[i]['mem'] - 1]}, [src[i]]), 'c23')
    rows = [[int(x) for x in v.split(', ')] for v in d.values()]
    chk.count(voices=sum(r[0] for r in rows), loop_sequences=sum(r[1] for r in rows))
    chk.sample({'song': open(src[0], 'rb').read()[:300].decode('latin-1'), 'case': cases[0]})


# ------------------------------------------------------------------ histories

class Images:
    """Numbers ROM images; equal bytes, equal number; 0 is a missing file."""

    def __init__(self):
        self.num, self.data = {None: 0}, [None]

    def of(self, data):
        if data is not None:
            data = bytes(data)
        if data not in self.num:
            self.num[data] = len(self.data)
            self.data.append(data)
        return self.num[data]


def slurp(path):
    if os.path.isfile(path):
        with open(path, 'rb') as f:
            return f.read()
    return None


def twin_images(chk, imgs, pairs, lay, tag, trim=None):
    """All 34 slots of each pair of images play the same (TLC decides)."""
    mems, memo, cases, src = [], {}, [], []

    def mem(i, b):
        k = json.dumps(rom.memory(imgs.data[i], lay, b, trim))
        if k not in memo:
            mems.append(json.loads(k))
            memo[k] = len(mems)
        return memo[k]
    seen = set()
    for a, b in pairs:
        for n in range(34):
            k = play.bank_of(n)
            key = (mem(a, k), mem(b, k), n)
            if key[0] != key[1] and key not in seen:
                seen.add(key)
                cases.append({'a': {'kind': 'rom', 'mem': key[0], 'slot': n}, 'b': {'kind': 'rom', 'mem': key[1], 'slot': n},
                              'skip': False, 'raw': False})
                src.append((a, b))

    def describe(i):
        out = []
        for x, nm in zip(src[i], ('got', 'expected')):
            p = os.path.join(chk.scratch.dir, nm + '.smc')
            with open(p, 'wb') as f:
                f.write(imgs.data[x])
            out.append(p)
        return {'case': cases[i], 'layout': lay.banks, 'bases': lay.bases}, out
    d = validate(chk, 'TTwin', {'cases': cases, 'songs': [], 'mems': mems}, len(cases), ['Same'], describe, tag)
    chk.count(events_compared=sum(int(x.split(', ')[1]) for x in d.values()))


def nine_notes():
    return {'tpb': 24, 'tracks': [[(0, 'on', 0, 40 + i, 80) for i in range(9)] + [(24, 'off', 0, 40 + i, 0) for i in range(9)]]}


def hist_world(chk, k):
    """A folder with songs and manifests, and a ROM in which each build fits, but not two."""
    rng = chk.rng
    d = os.path.join(chk.scratch.dir, 'h%d' % k)
    files = write_songs(d, small_songs(rng, 20, rng.choice([4, 10])))
    names = [f for f, _ in files]
    midi.write(os.path.join(d, 'nine.mid'), **{'tpb': nine_notes()['tpb'], 'tracks': nine_notes()['tracks']})
    big = {'parts': [{'tracks': [0]}],
           'tracks': [{'commands': [song.cmd('Note', [0x90], 24, 8, 5)] + [song.cmd('Tie', [], 5)] * 12000}]}
    with open(os.path.join(d, 'big.json'), 'w') as f:
        json.dump(big, f)

    def man(name, **special):
        ent = [{'input': rng.choice(names), 'loop': rng.random() < 0.5} for _ in range(34)]
        for s, f in special.items():
            ent[int(s[1:])] = {'input': f}
        rom.write_manifest(os.path.join(d, name), ent)
        return ['build_rom', os.path.join(d, name)]
    x, y = rng.choice(names), rng.choice(names)
    late = rng.choice([3, 18, 32, 33])
    ops = {'A': man('A.json'), 'B': man('B.json'), 'all': ['all_overworld', os.path.join(d, x)],
           'file': ['file_select', os.path.join(d, y)],
           'bad': man('bad.json', **{'s%d' % late: rng.choice(['missing.json', 'nine.mid'])}),
           'big': man('big_m.json', **{'s%d' % rng.choice([5, 20, 31, 33]): 'big.json'})}
    image, lay = rom.roomy(rng, pre=0, post=0)
    need = [0, 0, 0]
    for o in ('A', 'B', 'all', 'file'):
        j = {'d': d, 'opts': ['-s'], 'args': ops[o]}
        out, after = run_op(chk, j, image, lay, 'n.smc')
        if out.kind == 'ok':
            need = [max(a, b) for a, b in zip(need, used(after, lay))]
    mains, overs = [], []
    for b in range(3):
        m = rng.randint(rom.FIRST_SONG[b], need[b])
        mains.append(m)
        overs.append(max(30, need[b] - m + 120))
    image, lay = rom.make(rng, mains, overs, ovbase=[0x1800] * 3, pre=rng.choice([0, 1]), post=1)
    with open(os.path.join(d, 'none.json'), 'w') as f:
        json.dump({'parts': [{'tracks': [0]}], 'tracks': [{'commands': []}]}, f)
    means = {}
    for o, ent in (('all', [{'input': x} for _ in range(34)]),
                   ('file', [{'input': y} if i == 10 else {'input': 'none.json', 'loop': False} for i in range(34)])):
        rom.write_manifest(os.path.join(d, 'means_%s.json' % o), ent)
        means[o] = ['build_rom', os.path.join(d, 'means_%s.json' % o)]
    return {'d': d, 'ops': ops, 'means': means, 'image': bytes(image), 'lay': lay}


def c18(chk):
    rng = chk.rng
    r = design(chk, 'MHist', {'MaxOps': scale('3', '4'), 'EMIT': 'TRUE'}, ['LastDecides', 'NoMemory'],
               ['stale', 'append', 'partial'])
    hists = sorted({p for p in r.prints})
    hists = [(re.findall(r'"(\w+)"', m.group(1)), re.findall(r'TRUE|FALSE', m.group(2)))
             for m in (re.match(r'<<"@", <<(.*?)>>, <<(.*?)>>>>', p) for p in hists)]
    rng.shuffle(hists)
    per = scale(12, 60)
    for w in range(scale(4, 20)):
        world = hist_world(chk, w)
        sel = hists[w * per:(w + 1) * per]
        if w % 2:        # longer random histories
            sel = [([rng.choice(['A', 'B', 'all', 'file', 'bad', 'big', 'A', 'file']) for _ in range(rng.randint(4, 7))], None)
                   for _ in range(per // 2)]
        else:
            chk.count(model_behaviours_replayed=len(sel))
        hist_run(chk, world, sel, 'w%d' % w)
    chk.sample({'history': sel[0][0], 'areas': world['lay'].banks})


def hist_run(chk, world, hists, tag):
    imgs = Images()
    lay, d = world['lay'], world['d']
    first = imgs.of(world['image'])
    raw = {'file', 'A'}            # some operations run without compression
    opts = lambda o, i: ['-s'] if (o in raw and i % 2) else []

    def apply(path, o, i):
        r = chk.tool.run(opts(o, i) + world['ops'][o] + [path] + lay.args(), timeout=120)
        if o not in ('bad', 'big'):
            broke(chk, r, '%s with valid songs' % world['ops'][o][0], lambda: folder(d))
        return r.kind, slurp(path)
    # what all-overworld and file-select stand for is said by a manifest as well
    refs, saved = {}, dict(world['ops'])
    world['ops'].update(world.get('means', {}))
    for o in world['ops']:
        for i in (0, 1):
            p = os.path.join(d, 'ref.smc')
            with open(p, 'wb') as f:
                f.write(world['image'])
            refs[o, i] = apply(p, o, i)
    world['ops'] = saved

    def one(h):
        p = os.path.join(d, 'hist%d.smc' % h)
        with open(p, 'wb') as f:
            f.write(world['image'])
        out = [apply(p, o, i % 2) for i, o in enumerate(hists[h][0])]
        os.unlink(p)
        return out
    res = vt.pmap(one, range(len(hists)))
    cases, pairs = [], []
    for (ops, _), rr in zip(hists, res):
        steps, want = [], 0
        for i, (o, (kind, data)) in enumerate(zip(ops, rr)):
            rk, rd = refs[o, i % 2]
            st = {'outcome': kind, 'img': imgs.of(data), 'full': 0, 'mustfail': False,
                  'refout': rk, 'ref': imgs.of(rd)}
            steps.append(st)
            if kind == 'ok' and rk == 'ok':
                pairs.append((st['img'], st['ref']))
        cases.append({'first': first, 'steps': steps})
    pairs = sorted(set(p for p in pairs if p[0] != p[1]))
    twin_images(chk, imgs, pairs, lay, tag + 't')
    files = [os.path.join(d, f) for f in sorted(os.listdir(d))]
    dd = validate(chk, 'THist', {'cases': cases, 'same': [list(p) for p in pairs]}, len(cases), ['Held'],
                  lambda i: ({'history': hists[i][0], 'commands': world['ops'], 'bank_addrs': lay.bases, 'steps': cases[i]}, files), tag)
    rows = [[int(x) for x in v.split(', ')] for v in dd.values()]
    chk.count(operations=sum(r[0] for r in rows), operations_successful=sum(r[1] for r in rows))


def c15(chk):
    rng = chk.rng
    design(chk, 'MHist', {'MaxOps': '3', 'EMIT': 'FALSE'}, ['LastDecides', 'NoMemory'], ['partial'])
    for w in range(scale(4, 40)):
        fail_world(chk, w)


def fail_world(chk, w):
    """Builds that cannot succeed, for many reasons, and builds whose write is cut short."""
    rng = chk.rng
    world = hist_world(chk, w)
    d, lay, image = world['d'], world['lay'], world['image']
    names = [f for f in sorted(os.listdir(d)) if re.match(r's\d\d\.', f)]
    good = {'parts': [{'tracks': [0]}], 'tracks': [{'commands': [song.cmd('Note', [0x90], 24, 8, 5)]}]}

    def put(name, data):
        with open(os.path.join(d, name), 'wb') as f:
            f.write(data if isinstance(data, bytes) else json.dumps(data).encode())
        return name
    midfile = midi.smf(24, [[(0, 'on', 0, 60, 80), (24, 'off', 0, 60, 0)]])
    bad_inputs = [
        'missing.mid', 'missing.json', 'sub',
        put('empty.mid', b''), put('junk.mid', rng.randbytes(100)), put('magic.mid', b'MThx' + midfile[4:]),
        put('cut.mid', midfile[:rng.randint(20, len(midfile) - 5)]), put('hdr.mid', midfile[:10]),
        put('empty.json', b''), put('junk.json', rng.randbytes(60)), put('cut.json', json.dumps(good).encode()[:-7]),
        put('list.json', []), put('nocmd.json', {'parts': [{'tracks': [0]}], 'tracks': [{'commands': [
            {'duration': 1, 'velocity': 1, 'sustain': 1, 'command': {'Nonsense': 3}}]}]}),
        put('far.json', {'parts': [{'tracks': [7]}], 'tracks': good['tracks']}),
        put('farloop.json', {'parts': [{'tracks': [0]}], 'tracks': [{'commands': [
            {'duration': None, 'velocity': None, 'sustain': None, 'command': {'CallLoop': [9, 2]}}]}]}),
        'nine.mid', 'big.json', put('noparts.json', {'parts': [], 'tracks': []}),
    ]
    os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
    jobs = []          # (args before ROM, args after ROM, ROM image or None, must fail, limit)

    def man(name, ent):
        rom.write_manifest(os.path.join(d, name), ent)
        return ['build_rom', os.path.join(d, name)]
    for i, b in enumerate(bad_inputs):
        for at in rng.sample([0, 10, 14, 15, 30, 31, 33], 2):
            ent = [{'input': rng.choice(names)} for _ in range(34)]
            ent[at] = {'input': b}
            jobs.append((man('mb%d_%d.json' % (i, at), ent), lay.args(), image, True, None))
        jobs.append(([rng.choice(['all_overworld', 'file_select']), os.path.join(d, b)], lay.args(), image, True, None))
    # manifests
    base = rom.manifest([{'input': rng.choice(names)} for _ in range(34)])
    dump = lambda m: json.dumps(m).encode()
    broken = [b'', b'{', dump(base)[:-5], b'[]', b'null', b'3']
    for _ in range(4):
        m = json.loads(json.dumps(base))
        b = rng.choice(rom.BANKS)
        x = rng.random()
        if x < 0.3:
            del m[b]
        elif x < 0.6:
            del m[b][rng.choice(sorted(m[b]))]
        elif x < 0.8:
            m[b][rng.choice(sorted(m[b]))] = rng.choice([{}, {'input': None}, {'input': 3}, None, [], {'Input': names[0]}])
        else:
            m[b] = []
        broken.append(dump(m))
    for i, m in enumerate(broken):
        jobs.append((['build_rom', os.path.join(d, put('bm%d.json' % i, m))], lay.args(), image, True, None))
    jobs.append((['build_rom', os.path.join(d, 'nomanifest.json')], lay.args(), image, True, None))
    jobs.append((['build_rom', d], lay.args(), image, True, None))
    # ROMs
    for n in (0, 1, 0x900, 0x950, len(image) // 2):
        jobs.append((world['ops']['A'], lay.args(), image[:n], n < 0x940, None))
    for b in range(3):
        r = bytearray(image)
        h = lay.banks[b]['main'] - 4
        r[h + 2:h + 4] = b'\x00\x30'                      # no chunk for D000
        jobs.append((world['ops'][rng.choice(['A', 'B', 'all', 'file'])], lay.args(), bytes(r), True, None))
        r = bytearray(image)
        r[rom.pc(lay.bases[b] + 8)] = 0xff                # pointer behind the end
        jobs.append((world['ops']['B'], lay.args(), bytes(r), True, None))
    jobs.append((world['ops']['A'], lay.args(), None, True, None))
    jobs.append((world['ops']['A'], ['--bank_addrs', 'zz,1,2'], image, True, None))
    jobs.append((world['ops']['A'], ['--bank_addrs', '7fff00,926,932'], image, True, None))
    # addresses for two banks, for four, for none; something that is no address
    hx = ['%x' % a for a in lay.bases]
    for l in (hx[:2], hx[:1], hx + hx[:1], hx[:2] + [''], ['', '', ''], hx[:2] + ['-1'], hx[:2] + ['0x914 '], hx[:2] + ['12345678901234567890']):
        jobs.append((world['ops'][rng.choice(['A', 'B', 'all', 'file'])], ['--bank_addrs', ','.join(l)], image, True, None))
    # writes cut short; a limit beyond the end does no harm
    for o in ('A', 'B', 'all', 'file'):
        n = len(image)
        for lim in (0, 1, rng.randrange(2, n), lay.banks[0]['main'] + 80, lay.banks[1]['over'], n // 2, n - 1, n, n + 1):
            jobs.append((world['ops'][o], lay.args(), image, False, lim))
    imgs = Images()
    opts = [['-s'] if rng.random() < 0.3 else ['-v'] if rng.random() < 0.1 else [] for _ in jobs]

    def one(i):
        pre, post, im, must, lim = jobs[i]
        p = os.path.join(d, 'job%d.smc' % i)
        outs = []
        for l in ([None, lim] if lim is not None else [None]):
            if im is not None:
                with open(p, 'wb') as f:
                    f.write(im)
            o = chk.tool.run(opts[i] + pre + [p] + post, timeout=120, fsize=l)
            outs.append((o.kind, slurp(p), o.tail()))
            if os.path.exists(p):
                os.unlink(p)
        return outs
    res = vt.pmap(one, range(len(jobs)))
    cases = []
    cut = 0
    for (pre, post, im, must, lim), outs in zip(jobs, res):
        kind, data, _ = outs[-1]
        st = {'outcome': kind, 'img': imgs.of(data), 'full': 0, 'mustfail': must, 'refout': '', 'ref': 0}
        first = imgs.of(im)
        if lim is not None:
            st['full'] = imgs.of(outs[0][1])
            if kind != 'ok':       # a write cut short: nothing is promised about the file
                first = st['img']
                cut += 1
        cases.append({'first': first, 'steps': [st]})

    def describe(i):
        p = os.path.join(d, 'rom.smc')
        with open(p, 'wb') as f:
            f.write(jobs[i][2] or b'')
        return {'command': opts[i] + jobs[i][0] + ['ROM'] + jobs[i][1], 'file size limit': jobs[i][4],
                'ended': res[i][-1][0], 'message': res[i][-1][2], 'step': cases[i]}, \
            [p] + [os.path.join(d, f) for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))][:80]
    validate(chk, 'THist', {'cases': cases, 'same': []}, len(cases), ['Held'], describe, 'c15_%d' % w)
    kinds = [r[-1][0] for r in res]
    chk.count(builds=len(jobs), builds_failed=sum(k != 'ok' for k in kinds), writes_cut_short=cut)
    chk.sample({'command': jobs[3][0], 'outcome': kinds[3], 'message': res[3][-1][2]})


# ------------------------------------------------------------------ manifests

def path_parts(p):
    return [x.split('.') for x in p.strip('/').split('/') if x]


def path_content(chk, kind, k):
    """Content for a song file: (bytes, song it stands for, its tempos if MIDI)."""
    rng = chk.rng
    f = os.path.join(chk.scratch.dir, 'content%d' % k)
    if kind == 'json':
        js = song.gen_json(rng, rng.choice([2, 6, 12]))
        return json.dumps(js).encode(), [js, js], None
    while True:
        s = midi.gen_song(rng, nnotes=rng.choice([3, 8, 15]), tempos=4) if rng.random() < 0.6 else \
            midi.gen_repetitive(rng, 20)
        midi.write(f + '.mid', s['tpb'], s['tracks'], running=s.get('running', False))
        if all(chk.tool.run(o + ['midi2json', f + '.mid', f + e]).kind == 'ok'
               for o, e in (([], '.json'), (['-s'], '.raw'))):
            break
    us = [e[3] for e in sorted((e for t in s['tracks'] for e in t if e[1] == 'tempo'), key=lambda e: e[0])]
    return slurp(f + '.mid'), [song.load(f + '.json'), song.load(f + '.raw')], us


NAMES_MID = ['a.mid', 'b.mid', 'two words.mid', 'a.json.mid', 'x.y.z.mid']
NAMES_JSON = ['a.json', 'b.json', 'a.MID', 'a.Mid', 'noext', 'a.mid.json', 'b.midi', 'a.mi', 'mid', 'x.txt']
DIRS = ['', 'cwd', 'man', 'man/sub', 'man/man', 'cwd/sub', 'cwd/man', 'man/sub/deep', 'dir.mid', 'sub']


def c17(chk):
    rng = chk.rng
    pool = {'mid': [path_content(chk, 'mid', k) for k in range(scale(40, 120))],
            'json': [path_content(chk, 'json', k) for k in range(scale(50, 120))]}
    num, songs = {}, []
    for k in ('mid', 'json'):
        for i, c in enumerate(pool[k]):
            num[k, i] = len(songs) + 1       # compressed; uncompressed is the next one
            songs += [song.normalise(x) for x in c[1]]
    for w in range(scale(5, 40)):
        manifest_world(chk, w, pool, num, songs, 2)


def manifest_world(chk, w, pool, num, songs, builds):
    """A tree of folders full of files of the same names, and builds from manifests in it."""
    rng = chk.rng
    top = os.path.join(chk.scratch.dir, 'man%d' % w)
    here = {}           # absolute path -> (kind, content)
    order = {k: rng.sample(range(len(pool[k])), len(pool[k])) for k in pool}
    for d in DIRS:
        os.makedirs(os.path.join(top, d), exist_ok=True)
        for nm in rng.sample(NAMES_MID, 3) + rng.sample(NAMES_JSON, 4):
            k = 'mid' if nm.endswith('.mid') else 'json'
            p = os.path.normpath(os.path.join(top, d, nm))
            i = order[k].pop()
            with open(p, 'wb') as f:
                f.write(pool[k][i][0])
            here[p] = (k, i)
    table = [{'path': path_parts(p), 'midi': here[p][0] == 'mid', 'song': num[here[p]],
              'us': pool[here[p][0]][here[p][1]][2] or []} for p in sorted(here)]
    cases, mems, src = [], [], []
    for b in range(builds):
        folder = os.path.normpath(os.path.join(top, rng.choice(['man', 'man', 'man/sub', 'cwd', ''])))
        cwd = os.path.join(top, rng.choice(['cwd', 'cwd', 'man', '', 'sub']))
        mp = os.path.join(folder, 'm%d.json' % b)
        man, ents = {}, []
        fav = rng.sample(sorted(here), 5)
        for bank, _, name in rom.ALL:
            p = rng.choice(sorted(here)) if rng.random() < 0.7 else rng.choice(fav)
            rel = p if rng.random() < 0.2 else os.path.relpath(p, folder)
            if rel != p and rng.random() < 0.3:
                rel = rng.choice(['./' + rel, 'zz/../' + rel, '../' + os.path.basename(folder) + '/' + rel])
                if rel.startswith('zz'):
                    os.makedirs(os.path.join(folder, 'zz'), exist_ok=True)
            e, c = {'input': rel}, {'path': path_parts(rel), 'abs': rel == p}
            if rng.random() < 0.6:
                n, d = rng.choice(play.FACTORS)
                e['tempoAdjust'] = n if d == 1 and rng.random() < 0.5 else n / d
                c['num'], c['den'] = n, d
            if rng.random() < 0.5:
                e['loop'] = rng.random() < 0.5
            if rng.random() < 0.2:
                e['comment'] = 'input'
            man.setdefault(rom.BANKS[bank], {})[name] = dict(rng.sample(sorted(e.items()), len(e)))
            ents.append((rom.BANKS[bank], name, c, here[p]))
        keys = rng.sample(sorted(man), 3)
        man = {k: dict(rng.sample(sorted(man[k].items(), key=str), len(man[k]))) for k in keys}
        if rng.random() < 0.3:
            man[rng.choice(['Overworld', 'extra', 'title'])] = man['overworld']
            man['indoor']['Title'] = {'input': 'missing'}
        with open(mp, 'w') as f:
            json.dump(man, f, indent=rng.choice([None, 2]))
        given = mp if rng.random() < 0.3 else os.path.relpath(mp, cwd)
        image, lay = random_areas(rng)
        rp = os.path.join(top, 'r.smc')
        with open(rp, 'wb') as f:
            f.write(image)
        raw = rng.random() < 0.3
        o = chk.tool.run((['-s'] if raw else []) + ['build_rom', given, rp] + lay.args(), cwd=cwd)
        if o.kind != 'ok':
            # every file named exists, converts and is of the kind its name says: the same content
            # under plain names, in slot order
            d = os.path.join(top, 'plain')
            os.makedirs(d, exist_ok=True)
            ent = []
            for n, (_, _, c, (k, i)) in enumerate(ents):
                with open(os.path.join(d, 'p%d.%s' % (n, k)), 'wb') as f:
                    f.write(pool[k][i][0])
                ent.append({'input': 'p%d.%s' % (n, k)})
                if 'num' in c:
                    ent[-1]['tempoAdjust'] = c['num'] / c['den']
            o2, _ = build_files(chk, d, os.path.join(d, 'r.smc'), image, lay, ent, ['-s'] if raw else [])
            if o2.kind == 'ok':
                chk.violation('a manifest of good files cannot be built (%s)' % o.kind,
                              {'error': o.tail(), 'cwd': cwd, 'manifest': given, 'files': sorted(here)}, [mp])
            chk.count(builds_failed=1)
            continue
        after = slurp(rp)
        base = len(mems)
        mems += [rom.memory(after, lay, k, 0xff) for k in range(3)]
        for n, (bank, name, c, content) in enumerate(ents):
            k, i = content
            case = {'a': {'kind': 'rom', 'mem': base + play.bank_of(n) + 1, 'slot': n},
                    'b': {'kind': 'song', 'song': num[content] + raw}, 'skip': True, 'raw': False, 'form': int(raw),
                    'bank': bank, 'name': name, 'entry': c, 'folder': path_parts(folder)}
            if k == 'mid':
                case.update(us=pool[k][i][2], num=c.get('num', 1), den=c.get('den', 5))
            cases.append(case)
            src.append((mp, cwd, given, n))

    def describe(i):
        mp, cwd, given, n = src[i]
        return {'manifest': mp, 'given as': given, 'cwd': cwd, 'slot': n, 'case': cases[i]}, [mp]
    try:
        d = validate(chk, 'TManifest', {'cases': cases, 'songs': songs, 'mems': mems, 'files': table}, len(cases),
                     ['Bound', 'Same'], describe, 'man%d' % w)
    except vt.Violation as v:
        if str(v).startswith('Bound'):
            raise vt.ToolError('reference does not follow the manifest model: %s' % v.replay)
        raise
    chk.count(events_compared=sum(int(x.split(', ')[1]) for x in d.values()))
    if cases:
        chk.sample({'entry': cases[0]['entry'], 'folder': cases[0]['folder'][-2:], 'slot': cases[0]['name']})


# ------------------------------------------------------------------ the tool as a function

class Session:
    """Runs of the tool, recorded for TOutcome."""

    def __init__(self, chk, d, answered=False):
        self.chk, self.d, self.answered, self.runs, self.info = chk, d, answered, [], []
        os.makedirs(d, exist_ok=True)

    def run(self, imgs, op, ins, opts, args, out_path, cwd=None, loops=(), rom_in=None, timeout=120):
        """args without the options; out_path: the result file."""
        if rom_in is None:
            if os.path.exists(out_path):
                os.unlink(out_path)
        else:
            with open(out_path, 'wb') as f:
                f.write(rom_in)
        o = self.chk.tool.run(opts + args, cwd=cwd, timeout=timeout)
        data = slurp(out_path)
        r = {'op': op, 'comp': '-s' not in opts, 'verb': '-v' in opts, 'loops': list(loops),
             'ins': [{'file': imgs.of(slurp(p)), 'midi': p.endswith('.mid')} for p in ins],
             'rom': imgs.of(rom_in), 'kind': o.kind, 'code': o.code if o.code is not None else -1,
             'out': imgs.of(data), 'msg': bool(o.err.strip())}
        self.runs.append(r)
        self.info.append({'command': opts + args, 'message': o.tail(), 'ended': o.kind})
        return o, data


def sessions(chk, ss, tag):
    cases = [{'answered': s.answered, 'runs': s.runs} for s in ss]
    # the state carries every request answered: keep the alphabet small
    d = validate(chk, 'TOutcome', {'cases': cases}, len(cases), ['Held'],
                 lambda i: ({'runs': ss[i].runs, 'commands': ss[i].info},
                            [os.path.join(ss[i].d, f) for f in sorted(os.listdir(ss[i].d))
                             if os.path.isfile(os.path.join(ss[i].d, f))][:60]), tag)
    rows = [int(v) for v in d.values()]
    chk.count(runs_compared=sum(rows))
    if ss:
        chk.sample({'command': ss[0].info[-1], 'run': ss[0].runs[-1]})


def any_song(rng, size=40):
    x = rng.random()
    if x < 0.25:
        return midi.gen_repetitive(rng, rng.choice([10, size, 2 * size]))
    if x < 0.5:
        return midi.gen_shared(rng, nnotes=size, settings=rng.choice([0.2, 1.0]))
    if x < 0.65:
        nch = rng.choice([1, 2, 3, 5])
        return midi.gen_dense(rng, nch, max(nch, rng.choice([5, 7, 8, 8])), size, drums=rng.random() < 0.3)
    if x < 0.8:
        al = rng.choice(['ab', 'abr', 'abd', 'ade', 'abp'])
        return midi.word_song([''.join(rng.choice(al) for _ in range(rng.randint(1, 30)))
                               for _ in range(rng.choice([1, 2]))])
    return midi.gen_song(rng, nnotes=size, settings=rng.choice([0.2, 1.0]))


def c19(chk):
    rng = chk.rng

    def one(k):
        import random
        rr = random.Random(k[1])
        d = os.path.join(chk.scratch.dir, 's%d' % k[0])
        s = Session(chk, d)
        imgs = Images()
        n = 34
        files = []
        for j in range(n):
            f = os.path.join(d, 'm%02d.mid' % j)
            g = any_song(rr, rr.choice([1, 10, 40]))
            midi.write(f, g['tpb'], g['tracks'], running=g.get('running', False))
            files.append(f)
        opts = ['-s'] if rr.random() < 0.4 else []
        ok = []
        for f in files:
            o, _ = s.run(imgs, 'json', [f], opts, ['midi2json', f, f[:-4] + '.json'], f[:-4] + '.json')
            if o.kind == 'ok':
                ok.append(f)
        if not ok:
            return s
        pick = [rr.choice(ok) for _ in range(34)]
        loops = [rr.choice([True, False]) for _ in range(34)]
        image, lay = random_areas(rr)
        image = bytes(image)
        r = os.path.join(d, 'r.smc')
        jsons = [f[:-4] + '.json' for f in pick]
        half = [rr.choice(p) for p in zip(pick, jsons)]
        for nm, use in (('mid', pick), ('json', jsons), ('half', half)):
            ent = [{'input': os.path.basename(f), 'loop': l} for f, l in zip(use, loops)]
            if rr.random() < 0.3:
                for e in ent:
                    e['tempoAdjust'] = 0.2
            mp = os.path.join(d, 'man_%s.json' % nm)
            rom.write_manifest(mp, ent)
            # a JSON song is used as it is, whatever the compression setting
            oo = opts if nm != 'json' else rr.choice([[], ['-s']])
            s.run(imgs, 'build', use, oo, ['build_rom', mp, r] + lay.args(), r, loops=loops, rom_in=image)
        f = rr.choice(ok)
        for op, cmd in (('select', 'file_select'), ('all', 'all_overworld')):
            for g in (f, f[:-4] + '.json'):
                s.run(imgs, op, [g], opts, [cmd, g, r] + lay.args(), r, rom_in=image)
        return s
    ss = vt.pmap(one, [(k, rng.random()) for k in range(scale(24, 250))])
    chk.count(builds=sum(r['op'] != 'json' for s in ss for r in s.runs),
              builds_successful=sum(r['op'] != 'json' and r['kind'] == 'ok' for s in ss for r in s.runs))
    sessions(chk, ss, 'c19')


def c20(chk):
    rng = chk.rng

    def one(k):
        import random
        rr = random.Random(k[1])
        d = os.path.join(chk.scratch.dir, 's%d' % k[0])
        s = Session(chk, d)
        imgs = Images()
        files = []
        for j in range(12):
            f = os.path.join(d, 'm%02d.mid' % j)
            x = rr.random()
            g = midi.gen_dense(rr, rr.choice([1, 2, 3, 6]), rr.choice([7, 8, 8, 9]), rr.choice([20, 60]), drums=rr.random() < 0.3) \
                if x < 0.5 else midi.gen_nasty(rr) if x < 0.6 else any_song(rr, rr.choice([10, 40]))
            midi.write(f, g['tpb'], g['tracks'], running=g.get('running', False))
            files.append(f)
        ok = []
        times = scale(3, 6)
        other = os.path.join(d, 'elsewhere')
        os.makedirs(other, exist_ok=True)
        for f in files:
            base = ['-s'] if rr.random() < 0.3 else []
            for t in range(times + 1):
                out = os.path.join(other if t % 2 else d, rr.choice(['o.json', 'p.json']))
                o, _ = s.run(imgs, 'json', [f], base + (['-v'] if t == times else []), ['midi2json', f, out], out,
                             cwd=other if t == 1 else None)
            if o.kind == 'ok':
                ok.append(f)
        image, lay = random_areas(rr) if rr.random() < 0.7 else \
            rom.make(rr, [0x100] * 3, [rr.choice([0x800, 0x2000])] * 3, ovbase=[0x1800] * 3, pre=0, post=1)
        image = bytes(image)
        use = [rr.choice(files if rr.random() < 0.02 else ok or files) for _ in range(34)]
        loops = [rr.choice([True, False]) for _ in range(34)]
        mp = os.path.join(d, 'man.json')
        rom.write_manifest(mp, [{'input': os.path.basename(f), 'loop': l} for f, l in zip(use, loops)])
        f = rr.choice(ok or files)
        for t in range(3):
            v = ['-v'] if t == 2 else []
            r = os.path.join(other if t == 1 else d, 'r%d.smc' % t)
            s.run(imgs, 'build', use, v, ['build_rom', mp, r] + lay.args(), r, loops=loops, rom_in=image)
            s.run(imgs, 'select', [f], v, ['file_select', f, r] + lay.args(), r, rom_in=image)
            s.run(imgs, 'all', [f], v, ['all_overworld', f, r] + lay.args(), r, rom_in=image)
        src = os.path.join(d, 'src.smc')
        if lay.bases == rom.DEFAULT_BASES:
            with open(src, 'wb') as h:
                h.write(image)
            for t in range(2):
                r = os.path.join(d, 'fake%d.smc' % t)
                s.run(imgs, 'fake', [], ['-v'] if t else [], ['gen_fake_rom', src, r], r)
        return s
    ss = vt.pmap(one, [(k, rng.random()) for k in range(scale(24, 250))])
    chk.count(runs_verbose=sum(r['verb'] for s in ss for r in s.runs),
              runs_failed=sum(r['kind'] != 'ok' for s in ss for r in s.runs))
    sessions(chk, ss, 'c20')


def c24(chk):
    rng = chk.rng
    songs = [midi.gen_nasty(rng) for _ in range(scale(400, 6000))] + midi.worst_cases(rng, THOROUGH)
    rng.shuffle(songs)
    image, lay = rom.roomy(rng, pre=0, post=1)
    image = bytes(image)
    hung = []

    def one(k):
        g = songs[k]
        d = os.path.join(chk.scratch.dir, 'n%d' % k)
        s = Session(chk, d, True)
        imgs = Images()
        f = os.path.join(d, 'm.mid')
        midi.write(f, g['tpb'], g['tracks'], running=g.get('running', False))
        out = os.path.join(d, 'o.json')
        t, t0 = 240, time.time()
        for opts in ([], ['-s']):
            if 'hang' in [r['kind'] for r in s.runs] or len(hung) > 3:      # enough seen
                return s
            o, _ = s.run(imgs, 'json', [f], opts, ['midi2json', f, out], out, timeout=t)
            if o.kind == 'hang':
                hung.append(k)
        slow = time.time() - t0 > 15            # a big song to optimise: not again
        if k % 5 == 0 and not slow and not g.get('big'):
            s.run(imgs, 'json', [f], ['-v'], ['midi2json', f, out], out, timeout=t)
        if k % 4 == 0 and not slow:
            r = os.path.join(d, 'r.smc')
            s.run(imgs, 'select', [f], [], ['file_select', f, r], r, rom_in=image, timeout=t)
        if k % 7 == 0 and not g.get('big'):
            s.run(imgs, 'dump', [f], [], ['dump_midi', f], os.path.join(d, 'none'), timeout=t)
        for x in ('o.json', 'r.smc'):
            if os.path.exists(os.path.join(d, x)):
                os.unlink(os.path.join(d, x))
        return s
    ss = [s for s in vt.pmap(one, range(len(songs))) if s.runs]
    # one file the MIDI library cannot read: an escape event right after a system-exclusive event
    g = {'tpb': 24, 'tracks': [[(0, 'sysex', 0, 0, 1), (0, 'sysex7', 0, 0, 0), (573, 'on', 1, 60, 80), (1146, 'off', 0, 60, 0),
                                (1719, 'tempo', 0, 500000, 0)]]}
    s = Session(chk, os.path.join(chk.scratch.dir, 'escape'), True)
    f, out = os.path.join(s.d, 'escape.mid'), os.path.join(s.d, 'o.json')
    midi.write(f, g['tpb'], g['tracks'])
    s.run(Images(), 'json', [f], [], ['midi2json', f, out], out)
    if not vt.known_finding(chk, 'escape-after-sysex', s.runs[0]['kind'] == 'crash'):
        ss.append(s)
    chk.count(files=len(ss), refused=sum(s.runs[0]['kind'] == 'error' for s in ss),
              converted=sum(s.runs[0]['kind'] == 'ok' for s in ss))
    sessions(chk, ss, 'c24')


def c22(chk):
    import itertools
    rng = chk.rng
    design(chk, 'MLoopOpt', dict(LOOPOPT, MaxLen=scale('6', '7')), ['SlidesWhole'])
    words = [''.join(w) for n in range(1, scale(5, 7) + 1) for w in itertools.product('adr', repeat=n) if 'd' in w]
    words += [''.join(rng.choice(al) for _ in range(rng.randint(4, 30)))
              for al in ('abder', 'ade', 'de', 'adrp', 'adp') for _ in range(scale(30, 300))]
    songs = [midi.word_song([w], dur=rng.choice([6, 24, 200])) for w in words]
    for s in songs:          # the slide time
        t = rng.choice([0, 1, 3, 6, 100])
        s['tracks'][0].insert(0, (0, 'cc', 0, 37, t))
    songs += [midi.gen_porta(rng, rng.choice([10, 40, 80])) for _ in range(34 * scale(4, 60))]
    # voices shared by channels and channels with several notes
    songs += [midi.add_porta(rng, midi.gen_shared(rng, drums=False, tempos=rng.choice([0, 2])) if rng.random() < 0.6 else
                             dict(midi.gen_song(rng, drums=False, nnotes=rng.choice([20, 60])), unstarted=True), 1)
              for _ in range(34 * scale(4, 60))]
    for _ in range(34 * scale(2, 30)):          # drums
        g = midi.gen_shared(rng, drums=True, tempos=0) if rng.random() < 0.5 else \
            dict(midi.gen_song(rng, drums=True, channels=rng.choice([1, 1, 2]), nnotes=rng.choice([20, 60])), unstarted=True)
        if any(e[2] == 9 and e[3] == 40 for t in g['tracks'] for e in t) and any(e[2] == 9 and e[3] == 38 for t in g['tracks'] for e in t):
            continue
        songs.append(midi.add_porta(rng, g, 1, True))
    for s in songs[len(words):]:
        if rng.random() < 0.15:
            midi.hanging(rng, s)
    r = play.run_tplay(chk, songs, ['C22'], module='TPorta')
    if r:
        cases, tot = r
        chk.count(notes_expected=tot[0], slides_expected=tot[1], voices_executed=tot[2])
        chk.sample({'tracks': cases[-1]['song']['tracks'][:2]})


def c26(chk):
    rng = chk.rng
    songs = []
    for _ in range(scale(220, 3000)):
        x = rng.random()
        g = midi.gen_dense(rng, rng.choice([1, 2, 3, 6]), rng.choice([7, 8, 8, 9]), 30, drums=rng.random() < 0.4) if x < 0.2 \
            else midi.add_porta(rng, midi.gen_song(rng, nnotes=25)) if x < 0.3 else any_song(rng, rng.choice([3, 15, 40]))
        k = 1
        if g['tpb'] % 24 == 0 and not any(e[1] == 'cc' and e[3] == 65 for t in g['tracks'] for e in t) and rng.random() < 0.5:
            k = rng.choice([2, 3, 5, 7, 10])       # (portamento times are given in MIDI ticks)
            if max([e[0] for t in g['tracks'] for e in t] + [0]) > 10 ** 8:
                k = 1
        songs.append((g, midi.rewrite(rng, g, k), k))

    def one(k):
        g, h, f = songs[k]
        imgs = Images()
        d = os.path.join(chk.scratch.dir, 'w%d' % k)
        os.makedirs(d)
        ans = []
        for i, s in enumerate((g, h)):
            m, o = os.path.join(d, '%d.mid' % i), os.path.join(d, 'o.json')
            midi.write(m, s['tpb'], s['tracks'], running=s.get('running', False))
            a = []
            for opts in ([], ['-s']):
                if os.path.exists(o):
                    os.unlink(o)
                r = chk.tool.run(opts + ['midi2json', m, o])
                a.append([r.kind, imgs.of(slurp(o))])
            ans.append(a)
        return {'files': [{'tracks': midi.to_model(g['tracks']), 'unit': f}, {'tracks': midi.to_model(h['tracks']), 'unit': 1}],
                'answers': ans}
    cases = vt.pmap(one, range(len(songs)))
    for c in cases:                # as in MidiPerf, what lasts until when is told by channel events
        for f in c['files']:
            f['tracks'] = [[e for e in t if e['k'] != 'meta'] for t in f['tracks']]
    try:
        d = validate(chk, 'TSame', {'cases': cases}, len(cases), ['Music', 'Same'],
                     lambda i: ({'answers': cases[i]['answers']},
                                [os.path.join(chk.scratch.dir, 'w%d' % i, '%d.mid' % j) for j in (0, 1)]), 'same')
    except vt.Violation as v:
        if str(v).startswith('Music'):
            raise vt.ToolError('the rewritten file is other music: %s' % v.replay)
        raise
    chk.count(pairs=len(cases), notes=sum(int(x) for x in d.values()),
              refused=sum(c['answers'][0][0][0] != 'ok' for c in cases), rescaled=sum(k > 1 for _, _, k in songs))
    chk.sample({'answers': cases[0]['answers'], 'tracks': [len(f['tracks']) for f in cases[0]['files']]})


def tree_of(top, imgs):
    """Everything below a folder: files by content, links and folders by kind."""
    out = []
    for root, ds, fs in os.walk(top):
        for x in sorted(ds + fs):
            p = os.path.join(root, x)
            what = 'link ' + os.readlink(p) if os.path.islink(p) else 'folder' if os.path.isdir(p) else \
                'file %d %o' % (imgs.of(slurp(p)), os.stat(p).st_mode & 0o777)
            out.append({'p': os.path.relpath(p, top), 'c': what})
    return out


def c27(chk):
    rng = chk.rng

    def one(k):
        import random
        rr = random.Random(k[1])
        top = os.path.join(chk.scratch.dir, 't%d' % k[0])
        dirs = ['in', 'out', 'in/deep', 'cwd']
        for x in dirs:
            os.makedirs(os.path.join(top, x))
        imgs = Images()
        mids = []
        for j in range(4):
            g = any_song(rr, rr.choice([3, 15])) if j or rr.random() < 0.7 else {'tpb': 24, 'tracks': nine_notes()['tracks']}
            p = os.path.join(top, rr.choice(dirs), 'm%d.mid' % j)
            midi.write(p, g['tpb'], g['tracks'])
            mids.append(p)
        bad = os.path.join(top, 'in', 'bad.mid')
        with open(bad, 'wb') as f:
            f.write(rr.choice([b'', b'MThd', slurp(mids[0])[:30]]))
        jsons = [os.path.join(top, rr.choice(dirs), 'j%d.json' % j) for j in range(2)]
        chk.tool.run(['midi2json', mids[1], jsons[0]])
        wrong = os.path.join(top, rr.choice(dirs), 'wrong.json')      # songs and ROMs that are refused
        with open(wrong, 'wb') as f:
            f.write(rr.choice([b'', b'{', b'{"parts": [{"tracks": [0, 7]}], "tracks": [{"commands": []}]}',
                               b'{"parts": [{"tracks": [0]}], "tracks": [{"commands": [{"duration": 200, "velocity": 8, "sustain": 3, "command": {"Note": 144}}]}]}']))
        junk = os.path.join(top, 'out', 'old.json')
        with open(junk, 'w') as f:
            f.write('x' * rr.choice([0, 5, 300000]))
        image, lay = random_areas(rr) if rr.random() < 0.8 else rom.make(rr, [0x60] * 3, [rr.choice([0, 0x40])] * 3)
        roms = [os.path.join(top, x) for x in ('r.smc', 'out/s.smc')]
        for r in roms:
            with open(r, 'wb') as f:
                f.write(bytes(image))
        cuts = [os.path.join(top, 'cut%d.smc' % i) for i in range(2)]
        for r in cuts:
            with open(r, 'wb') as f:
                f.write(bytes(image)[:rr.choice([0, 0x900, 0x930, lay.banks[0]['start'] + 2, lay.banks[1]['start'] + 2, lay.banks[2]['end'] - 1,
                                                 lay.banks[2]['end'] + 3])])
        cwd = os.path.join(top, rr.choice(['cwd', '', 'in']))

        def say(p):
            return p if rr.random() < 0.5 else os.path.relpath(p, cwd)

        def source():
            have = [j for j in jsons if os.path.exists(j)]
            return rr.choice(mids + mids + have + ([bad, wrong] if rr.random() < 0.2 else []))
        start, steps = tree_of(top, imgs), []
        for _ in range(rr.randint(4, 9)):
            op = rr.choice(['build', 'build', 'all', 'select', 'json', 'json', 'dump', 'fake', 'fake'])
            opts = [o for o in ('-s', '-v') if rr.random() < 0.3]
            out = ''
            if op == 'build':
                mp = os.path.join(top, 'in', 'man.json')
                ent = [{'input': os.path.relpath(source(), os.path.dirname(mp))} for _ in range(34)]
                if rr.random() < 0.2:
                    ent[rr.randrange(34)] = rr.choice([{}, {'input': 3}, {'input': 'nothing.mid'}, {'input': '../in/bad.mid', 'loop': 'yes'}])
                rom.write_manifest(mp, ent)
                out = rr.choice(roms + roms + cuts[:1])
                args = ['build_rom', say(mp), say(out)] + lay.args()
                start, steps = (tree_of(top, imgs), steps) if not steps else (start, steps)
                if steps:      # the manifest is the user's doing
                    steps.append({'cmd': 'manifest written', 'ok': True, 'out': 'in/man.json', 'after': tree_of(top, imgs)})
            elif op in ('all', 'select'):
                out = rr.choice(roms + roms + cuts[:1])
                args = [{'all': 'all_overworld', 'select': 'file_select'}[op], say(source()), say(out)] + lay.args()
            elif op == 'json':
                out = rr.choice(jsons + [junk, os.path.join(top, 'out', 'new.json')])
                args = ['midi2json', say(rr.choice(mids + [bad, wrong])), say(out)]
            elif op == 'dump':
                args = ['dump_midi', say(rr.choice(mids + [bad]))]
            else:
                src = rr.choice(roms + cuts)
                out = rr.choice([os.path.join(top, 'out', 'fake%d.smc' % rr.randint(0, 2))] * 2 + roms)
                args = ['gen_fake_rom', say(src), say(out)]
                if lay.bases != rom.DEFAULT_BASES:
                    continue
            o = chk.tool.run(opts + args, cwd=cwd)
            steps.append({'cmd': ' '.join(opts + args), 'ok': o.kind == 'ok', 'out': out and os.path.relpath(out, top),
                          'after': tree_of(top, imgs)})
        return {'start': start, 'steps': steps}
    cases = vt.pmap(one, [(k, rng.random()) for k in range(scale(60, 800))])
    validate(chk, 'TFiles', {'cases': cases}, len(cases), ['OnlyOutput'], lambda i: (cases[i], []), 'files')
    chk.count(commands=sum(len(c['steps']) for c in cases), commands_failed=sum(not s['ok'] for c in cases for s in c['steps']))
    chk.sample(cases[0]['steps'][-1]['cmd'])


# an event with its distance and, if it is shown with one, its absolute time (in a tuple or a structure)
RE_EVENT = re.compile(r'\b(MidiEvent|MetaEvent|SysExEvent) \{\s*delta_time: (\d+),\s*event: (\w+)( \{([^}]*)\})?,'
                      r'(?:\s*data: \[([^\]]*)\],)?\s*\}(?:,\s*(?:\w+: )?(\d+))?')
RE_TIME_FIRST = re.compile(r'(\d+),\s*(?:\w+: )?$')
DUMP_KIND = {'NoteOn': 'on', 'NoteOff': 'off', 'ProgramChange': 'pc', 'ControlChange': 'cc', 'PitchBendChange': 'bend',
             'ChannelPressure': 'chanp', 'PolyphonicKeyPressure': 'polyat'}


def digest(data):
    return sum((i + 1) * (x + 1) for i, x in enumerate(data)) % 99991


def dump_event(t, k, c=0, a=0, b=0):
    return {'t': t, 'k': k, 'c': c, 'a': a, 'b': b}


def dump_events(text):
    """The events in the output of dump_midi: with distances, and those shown with an absolute time."""
    raw, timed = [], []
    for m in RE_EVENT.finditer(text):
        if m.group(1) == 'SysExEvent':
            e = dump_event(0, 'sysex')
        elif m.group(1) == 'MetaEvent':
            data = [int(x) for x in re.findall(r'\d+', m.group(6) or '')]
            e = dump_event(0, 'meta', 0, int.from_bytes(bytes(data), 'big') if m.group(3) == 'SetTempo' else 0, digest(data))
        else:
            f = {k: int(v) for k, v in re.findall(r'(\w+): (-?\d+)', m.group(5) or '')}
            k = DUMP_KIND.get(m.group(3), 'other')
            a = f.get({'pc': 'program', 'cc': 'control', 'chanp': 'pressure'}.get(k, 'note'), 0)
            b = f.get({'cc': 'data'}.get(k, 'velocity'), 0)
            e = dump_event(0, k, f.get('ch', 0), a, b)
        first = RE_TIME_FIRST.search(text[max(0, m.start() - 400):m.start()])
        at = m.group(7) or (first.group(1) if first else None)
        if at is None:
            raw.append(dict(e, t=int(m.group(2))))
        else:
            timed.append(dict(e, t=int(at)))
    return raw, timed


def dump_model(e):
    t, k, c, a, b = e
    if k == 'tempo':
        return dump_event(t, 'meta', 0, a, digest(a.to_bytes(3, 'big')))
    if k in ('text', 'end'):
        return dump_event(t, 'meta', 0, 0, digest(b'x' * b if k == 'text' else b''))
    if k in ('sysex', 'sysex7'):
        return dump_event(t, 'sysex')
    if k == 'off0':
        return dump_event(t, 'on', c, a, 0)
    if k == 'bend':
        return dump_event(t, 'bend', c)
    return dump_event(t, k, c, a, 0 if k in ('pc', 'chanp') else b)


def c28(chk):
    rng = chk.rng
    songs = [midi.gen_nasty(rng) if rng.random() < 0.5 else any_song(rng, rng.choice([3, 15, 40]))
             for _ in range(scale(150, 2500))]

    def one(k):
        s = songs[k]
        p = os.path.join(chk.scratch.dir, 'd%d.mid' % k)
        midi.write(p, s['tpb'], s['tracks'], running=s.get('running', False))
        o = chk.tool.run((['-v'] if k % 4 == 0 else []) + ['dump_midi', p])
        raw, timed = dump_events(o.out.decode('utf-8', 'replace'))
        return {'tracks': [[dump_model(e) for e in t if e[1] != 'end'] for t in s['tracks']], 'raw': raw, 'timed': timed,
                'ok': o.kind == 'ok'}
    cases = vt.pmap(one, range(len(songs)))
    d = validate(chk, 'TDump', {'cases': cases}, len(cases), ['Answered', 'Shows'],
                 lambda i: ({'tracks': cases[i]['tracks']}, [os.path.join(chk.scratch.dir, 'd%d.mid' % i)]), 'dump')
    chk.count(events=sum(int(x) for x in d.values()))
    chk.sample(cases[0]['raw'][:3])


SHRINK = {'Alphabet': '{"a", "b"}', 'MaxLen': '4', 'NVoices': '2', 'MinBody': '2'}


def c29(chk):
    design(chk, 'MShrink', SHRINK, ['NeverLonger', 'Compact'], ['early', 'longer', 'inside', 'single', 'tiny'])
    design(chk, 'MShrink', dict(SHRINK, Alphabet='{"a", "b", "t"}', MaxLen=scale('7', '9'), NVoices='1'), ['NeverLonger', 'Compact'])
    design(chk, 'MShrink', dict(SHRINK, MaxLen=scale('10', '12'), NVoices='1', MinBody='4'), ['NeverLonger', 'Compact'])
    songs = loop_corpus(chk) + [midi.gen_shared(chk.rng) for _ in range(scale(60, 500))] + \
        [midi.gen_porta(chk.rng) for _ in range(scale(60, 500))]
    res = convert(chk, songs, 'conv')
    cases, src = [], []
    for s, r in zip(songs, res):
        so, sr = r['opt'][1], r['raw'][1]
        if so is None or sr is None:
            chk.count(songs_not_converted=1)
            continue
        a, b = song.normalise(so), song.normalise(sr)
        ids = {}

        def number(c):
            if c['op'] == 'CallLoop':
                return 0
            n = ids.setdefault(json.dumps(c), len(ids) + 1)
            return -n if c['op'] in ('Tie', 'PitchSlide') else n
        cases.append({'voices': [[number(c) for c in a['seqs'][v]] for v in a['voices']],
                      'total': sum(len(x) for x in a['seqs']), 'raw': sum(len(x) for x in b['seqs']),
                      'calls': sum(c['op'] == 'CallLoop' for x in b['seqs'] for c in x)})
        src.append((s, a))
    need_some(chk, cases, 'conversions', [s['file'] for s in songs[:30]])
    chk.sample({'words': src[0][0].get('words'), 'compressed': src[0][1]})
    validate(chk, 'TCompact', {'songs': cases}, len(cases), ['Compact'], lambda i: (src[i][1], [src[i][0]['file']]), 'c29')
    chk.count(songs_made_shorter=sum(1 for c in cases if c['total'] < c['raw']),
              commands=sum(c['raw'] for c in cases), commands_left=sum(c['total'] for c in cases))


# ------------------------------------------------------------------ what can be used

TOP31 = 2 ** 31 - 1
VALUES = [None, True, False, 0, 1, 3, 7, 8, 15, 16, 127, 128, 199, 200, 255, 256, 2 ** 40, -1, 1.5, 3.0, 'x', '', 'Note', [], [1], {}]


def tag(j):
    """A JSON value as the specification reads it."""
    if j is None:
        return {'t': 'null'}
    if isinstance(j, bool):
        return {'t': 'bool'}
    if isinstance(j, str):
        return {'t': 'str', 's': j}
    if isinstance(j, (int, float)):
        whole = isinstance(j, int) and j >= 0
        return {'t': 'num', 'int': whole, 'n': min(j, TOP31) if whole else 0}
    if isinstance(j, list):
        return {'t': 'arr', 'v': [tag(x) for x in j]}
    return {'t': 'obj', 'k': list(j), 'v': [tag(x) for x in j.values()]}


def nodes(j, path=()):
    yield path, j
    for k, x in (enumerate(j) if isinstance(j, list) else j.items() if isinstance(j, dict) else ()):
        yield from nodes(x, path + (k,))


def tweak_json(rng, j, rate=1):
    """A copy of j with something replaced, removed, renamed or added somewhere."""
    j = json.loads(json.dumps(j))
    for _ in range(rate):
        every = [p for p, _ in nodes(j) if p]
        if not every:
            return j
        deep = rng.choice([1, 2, 3, 4, 5, 6, 7])
        some = [p for p in every if len(p) == deep] or every
        p = rng.choice(some)
        at = j
        for k in p[:-1]:
            at = at[k]
        r = rng.random()
        if r < 0.55:
            at[p[-1]] = rng.choice(VALUES)
        elif r < 0.8:
            del at[p[-1]]
        elif isinstance(at, list):
            at.append(rng.choice(VALUES) if rng.random() < 0.5 else at[p[-1]])
        elif r < 0.9:
            at['extra'] = rng.choice(VALUES)
        else:
            at[rng.choice(['extra', 'Note', 'Tie', 'Pan', 'Vibrato', 'CallLoop', 'commands'])] = at.pop(p[-1])
    return j


def undecided(j):
    """Other ways serde has of writing what the tool writes: nobody promises anything about them."""
    return any(isinstance(x, dict) and any(v is None and k[:1].isupper() for k, v in x.items()) for _, x in nodes(j))


def far_json(rng):
    """Songs one step inside or outside of what the driver can play."""
    note = lambda n=0x90, d=24, v=8, s=5: song.cmd('Note', [n], d, v, s)
    one = lambda c: {'parts': [{'tracks': [0]}], 'tracks': [{'commands': c}]}
    loop = lambda t, n=2: song.cmd('CallLoop', [t, n], 0, 0, 0)
    out = []
    for n in (0, 127, 128, 129, 199, 200, 224, 255):
        out.append(one([note(n)]))
    for d in (0, 1, 127, 128, 200, 255):
        out.append(one([note(), note(d=d)]))
    for v in (0, 1, 15, 16, 255):
        out.append(one([note(v=v)]))
    for s in (0, 1, 7, 8, 255):
        out.append(one([note(s=s)]))
    for d, v, s in ((128, None, None), (3, 16, None), (3, 2, 8), (127, 15, 7)):
        out.append(one([note(), song.cmd(rng.choice(['Rest', 'Tie', 'VibratoOff']), [], d, v, s)]))
    for k in (1, 7, 8, 9, 12):
        out.append({'parts': [{'tracks': list(range(k))}], 'tracks': [{'commands': [note()]} for _ in range(k)]})
    out.append({'parts': [{'tracks': [0]}], 'tracks': [{'commands': [note()]} for _ in range(12)]})
    for tr in ([], [0, 0], [1, 0], [2], [0, 1, 2], [1]):
        out.append({'parts': [{'tracks': tr}], 'tracks': [{'commands': [note()]}, {'commands': [note(0x91)]}]})
    for k in range(8):          # a track that is not there, anywhere in any part
        tr = [rng.choice([0, 1]) for _ in range(rng.randint(k + 1, 8) if k < 7 else 8)]
        ok = [list(tr)] * rng.randint(0, 2)
        tr[k] = rng.choice([2, 2, 3, 255, 256, 65536])
        after = [[0]] * rng.randint(0, 2)
        out.append({'parts': [{'tracks': t} for t in ok + [tr] + after], 'tracks': [{'commands': [note()]}] * 2})
    for k in (2, 3, 6, 20):
        out.append({'parts': [{'tracks': [rng.choice([0, 1]) for _ in range(rng.randint(1, 8))]} for _ in range(k)],
                    'tracks': [{'commands': [note()]}] * 2})
    out.append({'parts': [], 'tracks': []})
    out.append({'parts': [], 'tracks': [{'commands': [note()]}]})
    out.append({'parts': [{'tracks': []}], 'tracks': []})
    out.append({'parts': [{'tracks': [0]}], 'tracks': []})
    for p2 in ([0], [1], [5], list(range(9))):
        out.append({'parts': [{'tracks': [0]}, {'tracks': p2}], 'tracks': [{'commands': [note()]}] * 2})
    for t in (0, 1, 2, 3, 4, 5, 1000):
        # track 1 is empty, 2 may be called, 3 calls 2
        out.append({'parts': [{'tracks': [0]}], 'tracks': [
            {'commands': [note(), loop(t), note()]}, {'commands': []}, {'commands': [note()]}, {'commands': [note(), loop(2, 3)]}]})
    for n in (1, 255, 256):
        out.append({'parts': [{'tracks': [0]}], 'tracks': [{'commands': [loop(1, n)]}, {'commands': [note()]}]})
    out.append({'parts': [{'tracks': [0]}], 'tracks': [{'commands': [note()]}, {'commands': [note(), loop(1)]}]})
    out.append(one([]))
    return out


def odd_midis(rng):
    """[(bytes, what the specification is told)]"""
    def t(fmt=1, division=24, tracks=0, whole=True, tempos=True, long=False, data=True):
        return {'t': 'midi', 'format': fmt, 'division': division, 'missing': tracks, 'whole': whole, 'tempos': tempos, 'long': long,
                'data': data}
    evs = lambda n=rng.randint(3, 8): [e for k in range(n) for e in ((k * 30, 'on', 0, 60 + k, 80), (k * 30 + 24, 'off', 0, 60 + k, 0))]
    a, b = evs(), [(0, 'tempo', 0, 500000, 0)] + [(x[0], x[1], 1) + tuple(x[3:]) for x in evs()]
    good = midi.smf(24, [a, b])
    out = [(good, t())]
    for d in (1, 2, 7, 23, 24, 25, 96, 480, 32767):
        out.append((midi.smf(d, [a, b]), t(division=d)))
    for d in (0, 0x8000, 0xE728, 0xE250, 0xffff):
        x = bytearray(good)
        x[12:14] = bytes([d >> 8, d & 255])
        out.append((bytes(x), t(division=d)))
    for f in (0, 2, 3, 255, 0x100, 0xffff):
        for tr in ([a, b], [a]):
            x = bytearray(midi.smf(24, tr))
            x[8:10] = bytes([f >> 8, f & 255])
            out.append((bytes(x), t(fmt=f)))
    heads = [good.index(b'MTrk'), good.index(b'MTrk', 30)]
    for _ in range(12):
        n = rng.randrange(0, len(good))
        if n != heads[1]:
            out.append((good[:n], t(whole=False)))
    for n in (heads[1], heads[1] + 1, heads[1] + 3, heads[0]):    # only the header tells that there is more
        out.append((good[:n], t(tracks=2 if n == heads[0] else 1)))
    for n in (1, 2, 7, 0xfffd):
        x = bytearray(good)
        x[10:12] = bytes([(n + 2) >> 8, (n + 2) & 255])
        out.append((bytes(x), t(tracks=n)))
    for k in ('on', 'off', 'off0', 'pc', 'cc', 'chanp', 'polyat'):
        for hi, lo in ((rng.randint(128, 255), 7), (7, rng.randint(128, 255)), (128, 128), (127, 127)):
            c = sorted(a + [(rng.randint(0, 60), k, 0, hi, lo)], key=lambda e: e[0])
            n = 2 if k in ('on', 'off', 'cc', 'polyat') else 1
            out.append((midi.smf(24, rng.choice([[c, b], [b, c]])), t(data=max((hi, lo)[:n]) < 128)))
    for at, new in ((0, b'MThx'), (0, b'RIFF'), (heads[0], b'MTrx'), (heads[0], b'Mtrk')):
        x = bytearray(good)
        x[at:at + 4] = new
        out.append((bytes(x), t(whole=False)))
    out += [(b'', t(whole=False)), (rng.randbytes(60), t(whole=False)), (b'{"parts":[{"tracks":[]}],"tracks":[]}', t(whole=False))]
    return out


def time_midis(rng):
    """Songs with tempo events cut short, and songs whose time is too long for the tool to count."""
    def smf(track):
        other = b'\x00\x90\x3c\x50\x18\x80\x3c\x00\x00\xff\x2f\x00'
        trs = [other, track] if rng.random() < 0.5 else [track, other]
        return b'MThd\0\0\0\6\0\1\0\2\0\x18' + b''.join(b'MTrk' + len(x).to_bytes(4, 'big') + x for x in trs)
    base = {'t': 'midi', 'format': 1, 'division': 24, 'missing': 0, 'whole': True, 'tempos': True, 'long': False, 'data': True}
    out = []
    for n in (0, 1, 2, 3):
        for at in (0, 24):
            ev = b'\x00\x91\x40\x50' + bytes([at]) + b'\xff\x51' + bytes([n]) + b'\x07\xa1\x20'[:n] + b'\x18\x81\x40\x00\x00\xff\x2f\x00'
            out.append((smf(ev), dict(base, tempos=n == 3)))
    big = b'\xff\xff\xff\x7f'                       # 2**28 - 1
    text = b'\xff\x01\x01x'
    sysex = b'\xf0\x02\x11\xf7'
    for total in (2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 33):
        for what in (text, sysex):
            left, ev = total, b''
            while left > 2 ** 28 - 1:
                ev += big + what
                left -= 2 ** 28 - 1
            ev += midi.vlq(left) + (what + b'\0' if rng.random() < 0.5 else b'') + b'\xff\x2f\x00'
            out.append((smf(ev), dict(base, long=total >= 2 ** 32)))
    return out


def c30(chk):
    rng = chk.rng
    for part in range(scale(1, 6)):
        usable_part(chk, part)


def sound(im, l):
    """Does every bank that can be read have one chunk for D000, and enough room, if any?"""
    for base in l.bases:
        p = [rom.pc(base + o) for o in (0, 4, 8)]
        at = rom.pc(im[p[0]] + 256 * im[p[1]] + 65536 * im[p[2]])
        seen = []
        for _ in range(1000):
            if at + 4 > len(im):
                break
            n, a = im[at] + 256 * im[at + 1], im[at + 2] + 256 * im[at + 3]
            seen.append((a == rom.MAIN, n))
            at += 4 + n
            if n == 0 or at > len(im):
                break
        else:
            return False          # too long a chain for the model
        mains = [i for i, (m, n) in enumerate(seen) if m and n]
        if len(mains) > 1 or any(seen[i][1] < 0x1000 or (seen[i + 1:i + 2] or [(0, 0)])[0][1] < 0x2000 for i in mains):
            return False
    return True


def usable_part(chk, part):
    rng = chk.rng
    d = os.path.join(chk.scratch.dir, 'use%d' % part)
    os.makedirs(os.path.join(d, 'folder.mid'), exist_ok=True)
    os.makedirs(os.path.join(d, 'folder.json'), exist_ok=True)
    files, where = [], {}

    def add(name, t, data=None):
        if data is not None:
            with open(os.path.join(d, name), 'wb') as f:
                f.write(data)
        files.append(t)
        where[name] = len(files)
        return name

    def add_json(name, j):
        return add(name, tag(j), json.dumps(j).encode())

    note = song.cmd('Note', [0x90], 24, 8, 5)
    good = [add_json('g%d.json' % i, song.gen_json(rng, size=6)) for i in range(4)]
    mids = []
    for i, (data, t) in enumerate(odd_midis(rng)):
        mids.append(add('m%d.mid' % i, t, data))
    good.append('m0.mid')
    for i, (ms, t) in enumerate(time_midis(rng)):
        mids.append(add('t%d.mid' % i, t, ms))
    jsons = [add_json('j%d.json' % i, s) for i, s in enumerate(far_json(rng))]
    base = [song.gen_json(rng, size=5), {'parts': [{'tracks': [0, 1]}], 'tracks': [{'commands': [note]}, {'commands': [note]}, {'commands': []}]}]
    n = 0
    while n < scale(110, 220):
        s = tweak_json(rng, rng.choice(base), rng.choice([1, 1, 1, 2, 3]))
        if not undecided(s):
            jsons.append(add_json('x%d.json' % n, s))
            n += 1
    text = json.dumps(base[1]).encode()
    for i, data in enumerate([b'', b'{', text[:-1], text[:len(text) // 2], text + b'}', b'\xff' + text, rng.randbytes(40), midi.smf(24, [[]])]):
        jsons.append(add('b%d.json' % i, {'t': 'broken'}, data))
    jsons += [add_json('y%d.json' % i, v) for i, v in enumerate([None, 3, 'x', [], {}, True])]
    none = [add('missing.mid', {'t': 'none'}), add('missing.json', {'t': 'none'}), add('folder.mid', {'t': 'none'}),
            add('folder.json', {'t': 'none'}), add('g0.json/x.json', {'t': 'none'})]
    broken = {'t': 'none'}

    rooms = dict(area_fill=0xff, pre=None, post=None)
    image, lay = rom.make(rng, [0x2ff0] * 3, [0x4000] * 3, ovbase=[0x1800] * 3, **rooms)
    bytes0 = bytes(image)
    hx = lambda b: '%x' % b
    plain = [hx(b) for b in lay.bases]
    cases, runs = [], []

    def windows(im, l):
        out = []
        for w in rom.windows(im, l):
            # the model follows chunk headers only
            out.append(w)
        return out

    def slim(im, l, bases):
        """Windows of pointers and of what the chunk chains may reach: headers only."""
        want = set()
        for b in bases:
            p = [rom.pc(b + o) for o in (0, 4, 8)]
            if max(p) >= len(im):
                want |= {q for q in p if q < len(im)}
                continue
            want |= set(p)
            at = rom.pc(im[p[0]] + 256 * im[p[1]] + 65536 * im[p[2]])
            for _ in range(40):
                if at + 4 > len(im):
                    want |= {q for q in range(at, len(im))}
                    break
                want |= set(range(at, at + 4))
                k = im[at] + 256 * im[at + 1]
                if not k or at + 4 + k > len(im):
                    break
                at += 4 + k
        out = []
        for q in sorted(want):
            if out and out[-1]['at'] + len(out[-1]['d']) == q:
                out[-1]['d'].append(im[q])
            else:
                out.append({'at': q, 'd': [im[q]]})
        return out
    digit = lambda c: int(c, 16) if c in '0123456789abcdefABCDEF' else 99
    slims = {}

    def add_case(op, pre, im=bytes0, l=lay, addrs=None, man=None, songs=(), post=None, output=True, opts=()):
        """im None: there is no ROM (a folder stands in its place)."""
        if addrs is None and list(l.bases) != list(rom.DEFAULT_BASES) and op in ('build_rom', 'all_overworld', 'file_select'):
            addrs = [hx(b) for b in l.bases]
        given = addrs if addrs is not None else [hx(b) for b in l.bases]
        vals = []
        for x in given:
            try:
                v = int(x, 16) if x and all(digit(c) < 16 for c in x) else -1
            except ValueError:
                v = -1
            vals.append(v)
        ok = [v for v in vals if 0 <= v <= 0xfffff7]
        key = (id(im), tuple(ok))
        if key not in slims:
            slims[key] = slim(im, l, ok) if im is not None else []
        rom_win = slims[key]
        cases.append({'op': op, 'addrs': [[digit(c) for c in x] for x in given], 'rom': rom_win,
                      'size': len(im) if im is not None else 0, 'manifest': where[man] if man else 0,
                      'songs': [where[s] for s in songs], 'output': output})
        runs.append((list(opts), [op] + list(pre), im, list(post or []), addrs))

    def song_case(s, op=None):
        op = op or rng.choice(['all_overworld', 'file_select'] + (['midi2json'] * 2 if s.endswith('.mid') else []))
        o = [['-s'], ['-v'], [], []][rng.randrange(4)]
        p = os.path.join(d, s)
        if op == 'midi2json':
            add_case(op, [p], im=None, songs=[s], post=['OUT'], opts=o)
        else:
            add_case(op, [p], songs=[s], addrs=None, post=['ROM'], opts=o)
    # songs: on their own and in manifests
    for s in mids + jsons + none:
        song_case(s)
    # names that are not text, which the command line does not take
    for k, ext in enumerate(('mid', 'mid', 'json', 'x')):
        nm = os.fsdecode(b'name%d\xff.%s' % (k, ext.encode()))
        with open(os.path.join(d, nm), 'wb') as f, open(os.path.join(d, 'm0.mid'), 'rb') as g:
            f.write(g.read())
        add(nm, {'t': 'none'})
        song_case(nm, 'midi2json' if k == 0 else None)
        if k:
            add_case('build_rom', [os.path.join(d, nm)], man=nm, post=['ROM'])
    for s in good:
        for op in ('all_overworld', 'file_select'):
            song_case(s, op)
    entries = lambda: [{'input': rng.choice(good)} for _ in range(34)]

    def man_case(name, ent=None, j=None, raw=None, **kw):
        if raw is not None:
            add(name, {'t': 'broken'}, raw)
        else:
            add_json(name, rom.manifest(ent) if j is None else j)
        m = rom.manifest(ent) if ent else j
        used = []
        if raw is None:       # the songs the manifest names, as far as it names any
            for b, i, slot in rom.ALL:
                e = m.get(rom.BANKS[b]) if isinstance(m, dict) else None
                e = e.get(slot) if isinstance(e, dict) else None
                e = e.get('input') if isinstance(e, dict) else None
                if isinstance(e, str):
                    if e not in where:
                        add(e, {'t': 'none'})
                    used.append(e)
        add_case('build_rom', [os.path.join(d, name)], man=name, songs=used, post=['ROM'],
                 opts=[['-s'], ['-v'], [], []][rng.randrange(4)], **kw)
    for k in range(scale(12, 40)):
        ent = entries()
        for _ in range(rng.choice([1, 1, 2])):
            ent[rng.choice([0, 10, 14, 15, 30, 31, 33, rng.randrange(34)])] = {'input': rng.choice(mids + jsons + none)}
        man_case('ms%d.json' % k, ent)
    for k in range(scale(40, 120)):
        ent = entries()
        for _ in range(rng.choice([0, 1, 2])):
            e = ent[rng.randrange(34)]
            e[rng.choice(['loop', 'tempoAdjust', 'input', 'extra'])] = rng.choice([v for v in VALUES if v is not None] + [0.2, 0.3])
        m = rom.manifest(ent)
        if rng.random() < 0.6:
            r = rng.random()
            b = rng.choice(rom.BANKS)
            s = rng.choice(list(m[b]))
            if r < 0.2:
                del m[b]
            elif r < 0.45:
                del m[b][s]
            elif r < 0.6:
                del m[b][s]['input']
            elif r < 0.75:
                m[b][s] = rng.choice([v for v in VALUES if not isinstance(v, dict)])
            elif r < 0.85:
                m[b] = rng.choice([v for v in VALUES if not isinstance(v, dict)])
            elif r < 0.92:
                m[b][s.lower()] = m[b].pop(s)
            else:
                m[b]['Extra'] = 3
                m['extra'] = {}
        man_case('mt%d.json' % k, j=m)
    text = json.dumps(rom.manifest(entries())).encode()
    for k, raw in enumerate([b'', b'{', text[:-1], text + b'}', text[:len(text) // 3], rng.randbytes(30), b'\xff' + text]):
        man_case('mr%d.json' % k, raw=raw)
    for k, v in enumerate([None, 3, [], {}, 'x', [rom.manifest(entries())]]):
        man_case('mv%d.json' % k, j=v if v is not None else 0)
    for nm in ('nomanifest.json', 'folder.json', 'g0.json/x.json'):
        if nm not in where:
            add(nm, {'t': 'none'})
        add_case('build_rom', [os.path.join(d, nm)], man=nm, post=['ROM'])

    # ROMs and bank addresses
    man_case('mg.json', entries())
    ops = [('build_rom', [os.path.join(d, 'mg.json')], 'mg.json', [e for e in cases[-1]['songs']])]

    def rom_case(im, l, addrs=None, ops_=('build_rom', 'all_overworld', 'file_select', 'gen_fake_rom')):
        op = rng.choice(ops_)
        o = [['-s'], ['-v'], [], []][rng.randrange(4)]
        if op == 'gen_fake_rom' and addrs is None and l.bases == rom.DEFAULT_BASES:
            add_case(op, [], im=im, l=l, post=['ROM', 'OUT'], opts=o)
        elif op == 'build_rom':
            add_case(op, [os.path.join(d, 'mg.json')], im=im, l=l, man='mg.json', post=['ROM'], addrs=addrs, opts=o)
            cases[-1]['songs'] = list(ops[0][3])
        else:
            s = rng.choice(good)
            add_case(op if op != 'gen_fake_rom' else 'file_select', [os.path.join(d, s)], im=im, l=l, songs=[s], post=['ROM'], addrs=addrs, opts=o)
    for op in ('build_rom', 'all_overworld', 'file_select', 'gen_fake_rom'):
        rom_case(bytes0, lay, ops_=(op,))
    cuts = [0, 1, 0x913, 0x914, 0x915, 0x932, 0x93a, 0x93b]
    for k in lay.banks:
        cuts += [k['start'], k['start'] + 2, k['start'] + 4, k['main'] - 4, k['main'], k['main'] + 50, k['over'] - 1, k['over'],
                 k['over'] + k['over_len'] - 1, k['over'] + k['over_len'], k['over'] + k['over_len'] + 3,
                 k['end'] - 1, k['end'], k['end'] + 1, k['end'] + 2, k['end'] + 3]
    images = []            # kept: case windows are remembered by identity
    for n in cuts:
        im = bytes0[:n]
        images.append(im)
        rom_case(im, lay)
    for _ in range(scale(30, 100)):
        r = bytearray(bytes0)
        b = rng.randrange(3)
        k = lay.banks[b]
        x = rng.random()
        if x < 0.25:           # no song area
            r[k['main'] - 2:k['main']] = bytes([rng.choice([0, 0x10, 0x80]), rng.choice([0x2b, 0xd1])])
        elif x < 0.45:         # a chunk that reaches behind the end of the file
            h = rng.choice([c[2] - 4 for c in k['chunks']])
            r[h:h + 2] = bytes([255, 255])
        elif x < 0.6:          # a pointer somewhere else
            p = lay.bases[b] + rng.choice([4, 8, 8])
            r[rom.pc(p)] = rng.choice([0xff, 0x7f, 0x3f])
        elif x < 0.75:         # a bank that ends early
            h = rng.choice([c[2] - 4 for c in k['chunks']])
            r[h:h + 2] = b'\0\0'
        else:                  # a pointer to zeros or to the last bytes of the file
            at = len(r) - rng.choice([1, 2, 3, 4, 5, 6])
            r[-6:] = bytes([0, 0, rng.choice([0, 0, 1]), rng.choice([0, 0xd0]), 0, 0])
            a = rom.snes(at)
            for o, v in ((0, a & 255), (4, (a >> 8) & 255), (8, a >> 16)):
                r[rom.pc(lay.bases[b] + o)] = v
        im = bytes(r)
        images.append(im)
        rom_case(im, lay)
    # main areas of about the size of the song table
    for _ in range(scale(14, 40)):
        mains = [0x2f00] * 3
        b = rng.randrange(3)
        mains[b] = rng.choice([1, 2, 0x34, 0x35, 0x36, 0x37, 0x45, 0x46, 0x47, 0x60])
        im, l = rom.make(rng, mains, [0x4000] * 3, ovbase=[0x1800] * 3, **rooms)
        im = bytes(im)
        images.append(im)
        rom_case(im, l)
    # good ROMs of other shapes, and the same with one byte of a pointer or of a chunk header changed
    for k in range(scale(8, 24)):
        im, l = rom.make(rng, [rng.choice([0x1000, 0x2ff0]) for _ in range(3)], [rng.choice([0x3000, 0x4000, 0x8001]) for _ in range(3)],
                         ovbase=[rng.choice([0x400, 0x1800]) for _ in range(3)], area_fill=0xff, shuffle=True,
                         bases=random_bases(rng) if k % 2 else None, pad=big_pad(rng, k < 2))
        im = bytes(im)
        images.append(im)
        rom_case(im, l)
        rom_case(im, l)
        if k > 2:
            r = bytearray(im)
            b = rng.randrange(3)
            h = rng.choice(l.banks[b]['chunks'])[2] - 4
            r[rng.choice([h, h + 1, h + 2, h + 3, rom.pc(l.bases[b] + rng.choice([0, 4, 8]))])] = rng.choice([0, 1, 0x7f, 0x80, 0xff])
            if not sound(r, l):
                continue
            im = bytes(r)
            images.append(im)
            rom_case(im, l)
    at = [v for v in lay.bases]
    for addrs in ([plain[0]], plain[:2], plain + plain[:1], plain[:2] + [''], ['', '', ''], ['0x914'] + plain[1:], plain[:2] + ['g'],
                  plain[:2] + [' 932'], plain[:2] + [os.fsdecode(b'9\xff')], plain[:2] + ['-1'], ['%08x' % a for a in at], [p.upper() for p in plain],
                  plain[:2] + ['fffff7'], plain[:2] + ['fffff8'], plain[:2] + ['1000000'], plain[:2] + ['7fffffff'],
                  plain[:2] + ['ffffffff'], plain[:2] + ['100000000'], plain[:2] + ['123456789012345678901234567890'],
                  ['7fff00'] + plain[1:], ['fffff0'] + plain[1:], plain[:1] + ['8%05x' % at[1]] + plain[2:], plain):
        rom_case(bytes0, lay, addrs=addrs, ops_=('build_rom', 'all_overworld', 'file_select'))
    # something else in the place of a ROM, outputs that cannot be written
    for op in ('build_rom', 'all_overworld', 'file_select', 'gen_fake_rom'):
        for place in ('missing.smc', 'folder.mid', 'g0.json/rom.smc', os.fsdecode(b'rom\xff.smc')):
            s = rng.choice(good)
            pre = [os.path.join(d, 'mg.json')] if op == 'build_rom' else [os.path.join(d, s)] if op != 'gen_fake_rom' else []
            add_case(op, pre, im=None, l=lay, man='mg.json' if op == 'build_rom' else None,
                     songs=[] if op == 'gen_fake_rom' else [s], post=[os.path.join(d, place)] + (['OUT'] if op == 'gen_fake_rom' else []))
    for place in ('nofolder/out', 'folder.mid', 'g0.json/out', os.fsdecode(b'out\xff')):
        for s in (good[0][:0] or 'm0.mid', 'm1.mid', 'm3.mid'):
            add_case('midi2json', [os.path.join(d, s)], im=None, songs=[s], post=[os.path.join(d, place)], output=False)
        add_case('gen_fake_rom', [], post=['ROM', os.path.join(d, place)], output=False)

    def one(i):
        opts, pre, im, post, addrs = runs[i]
        p, out = os.path.join(d, 'r%d.smc' % i), os.path.join(d, 'o%d' % i)
        if 'ROM' in post:
            with open(p, 'wb') as f:
                f.write(im)
        post = [p if x == 'ROM' else out if x == 'OUT' else x for x in post]
        a = []
        if addrs is not None:
            a = ['--bank_addrs', ','.join(addrs)]
        elif cases[i]['op'] in ('build_rom', 'all_overworld', 'file_select') and i % 5 == 0:
            a = ['--bank_addrs', ','.join('%x' % v for v in rom.DEFAULT_BASES)]
        o = chk.tool.run(opts + pre + post + a, timeout=60)
        for x in (p, out):
            if os.path.exists(x) and os.path.isfile(x):
                os.unlink(x)
        return o
    res = vt.pmap(one, range(len(runs)))
    for c, o in zip(cases, res):
        c['outcome'] = o.kind
        c['message'] = bool(o.err.strip())

    def describe(i):
        opts, pre, im, post, addrs = runs[i]
        keep = [os.path.join(d, n) for n in where if any(os.path.join(d, n) == x for x in pre)]
        if cases[i]['op'] == 'build_rom':
            names = {v: k for k, v in where.items()}
            keep += [os.path.join(d, names[s]) for s in cases[i]['songs'][:40]]
        keep = [k for k in keep if os.path.isfile(k)]
        if im is not None and 'ROM' in post:
            p = os.path.join(d, 'rom.smc')
            with open(p, 'wb') as f:
                f.write(im)
            keep.append(p)
        return {'command': opts + pre + post + (['--bank_addrs', ','.join(addrs)] if addrs else []), 'ended': res[i].kind,
                'message': res[i].tail()}, sorted(set(keep))
    names = {'banks': rom.BANKS, 'songs': rom.SLOTS}
    got = validate(chk, 'TUsable', {'cases': cases, 'files': files, 'names': names}, len(cases), ['Held'], describe, 'c30_%d' % part)
    chk.count(runs_judged=len(cases), runs_refused=sum(r.kind == 'error' for r in res),
              songs_looked_at=len(mids) + len(jsons) + len(none), roms_looked_at=len(images) + 1)
    i = next(i for i, r in enumerate(res) if r.kind == 'error')
    chk.sample({'command': runs[i][1], 'message': res[i].tail()[:200]})


CHECKS = {k.upper(): v for k, v in list(globals().items()) if re.match(r'c\d\d$', k)}
