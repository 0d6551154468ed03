"""Songs as command lists (the tool's JSON form)."""
import json

PARAMS = {'SetInstrument': 1, 'Pan': 1, 'PanFade': 2, 'Vibrato': 3, 'VibratoOff': 0, 'MasterVolume': 1,
          'MasterVolumeFade': 2, 'Tempo': 1, 'TempoFade': 2, 'GlobalTranspose': 1, 'ChannelTranspose': 1,
          'Tremolo': 3, 'TremoloOff': 0, 'ChannelVolume': 1, 'ChannelVolumeFade': 2, 'VibratoFade': 1,
          'PitchEnvelopeTo': 3, 'PitchEnvelopeFrom': 3, 'PitchEnvelopeOff': 0, 'Tuning': 1, 'EchoVolume': 3,
          'EchoOff': 0, 'EchoParams': 3, 'EchoVolumeFade': 3, 'PitchSlide': 3, 'PercussionPatchBase': 1}


def norm_cmd(c):
    x = c['command']
    if isinstance(x, str):
        op, a = x, []
    else:
        (op, a), = x.items()
        a = a if isinstance(a, list) else [a]
    f = lambda v: -1 if v is None else v
    return {'d': f(c.get('duration')), 'v': f(c.get('velocity')), 's': f(c.get('sustain')), 'op': op, 'a': a}


def normalise(song, part=0):
    """JSON song -> the record the specification reads; the voices are those of one part."""
    return {'voices': song['parts'][part]['tracks'],
            'seqs': [[norm_cmd(c) for c in t['commands']] for t in song['tracks']]}


def load(path):
    with open(path) as f:
        return json.load(f)


def cmd(op, args=(), d=None, v=None, s=None):
    x = op if not args else {op: args[0] if len(args) == 1 else list(args)}
    return {'duration': d, 'velocity': v, 'sustain': s, 'command': x}


def gen_json(rng, size=40, loops=True, bodies=None, spare=0.1, several=0.2):
    """A random song in JSON form. The first sounding command of every sequence and after every loop
    call sets duration, velocity and articulation; elsewhere they may be left unset (null or 0)."""
    nv = rng.choice([1, 1, 2, 3, 5, 8])
    nl = bodies if bodies is not None else rng.randint(0, 4) if loops else 0
    order = list(range(nv + nl))
    if rng.random() < 0.3:
        rng.shuffle(order)
    voices, bodies = order[:nv], order[nv:]
    ds = [rng.randint(1, 127) for _ in range(3)] + [1, 24, 127]

    def seq(n, callees, top=False):
        out = []
        alone = top             # no call so far
        hd = hv = False         # is a duration, are velocity and articulation in force?
        while len(out) < n:
            r = rng.random()
            if callees and r < (0.15 if nl < 10 else 0.6):
                t = rng.choice(callees)
                alone = False
                cnt = rng.choice([1, 2, 2, 3, 5, rng.randint(1, 255) if rng.random() < 0.2 else 2])
                z = rng.choice([0, None])
                out.append({'duration': z, 'velocity': z, 'sustain': z, 'command': {'CallLoop': [t, cnt]}})
                # what a called sequence leaves behind stays in force
                if t in sounding:
                    hd = hv = rng.random() < 0.4
            elif r < 0.35:
                op = rng.choice(sorted(PARAMS))
                a = [rng.choice([0, 1, 127, 128, 200, 255, rng.randint(0, 255)]) for _ in range(PARAMS[op])]
                d = rng.choice(ds) if rng.random() < 0.05 else None
                v = s = None
                if rng.random() < 0.06:            # control commands may set the values for later notes
                    v, s = rng.choice([(rng.randint(1, 15), rng.randint(1, 7)), (rng.randint(1, 15), None), (None, rng.randint(1, 7))])
                    if not callees and not hd:     # in a called sequence the caller's duration would be lost
                        d = d or rng.choice(ds)
                hd = hd or d is not None
                hv = hv or (v is not None and s is not None)
                out.append(cmd(op, a, d=d, v=v, s=s))
            else:
                fresh = not hd or not hv
                op = rng.choice(['Note'] * 5 + ['Tie', 'Rest'])
                if fresh and rng.random() < 0.8:
                    op = 'Note'
                a = [rng.choice([0x80, 0xc7, rng.randint(0x80, 0xc7)])] if op == 'Note' else []
                # velocity and articulation are set together with the first note, or left unset
                full = not hv or rng.random() < 0.4
                v = rng.randint(1, 15) if full or rng.random() < 0.2 else rng.choice([None, None, 0])
                s = rng.randint(1, 7) if full or rng.random() < 0.2 else rng.choice([None, None, 0])
                if alone and not hv and rng.random() < 0.4:      # defaults
                    v, s = rng.choice([(rng.randint(1, 15), None), (None, rng.randint(1, 7)), (None, 0), (0, rng.randint(1, 7)), (None, None)])
                d = rng.choice(ds)
                if hd and rng.random() < 0.25:     # the duration in force
                    d = rng.choice([None, None, 0])
                out.append(cmd(op, a, d=d, v=v, s=s))
                hd = True
                hv = hv or op == 'Note' or bool(v or s)
        return out
    tracks = [None] * (nv + nl)
    sounding = set()
    for b in bodies:
        tracks[b] = {'commands': seq(rng.choice([1, 2, 4, rng.randint(1, 12)]), [])}
        if any(c['command'] in ('Tie', 'Rest') or 'Note' in c['command'] for c in tracks[b]['commands']):
            sounding.add(b)
    for k, v in enumerate(voices):
        n = rng.randint(1, size)
        if rng.random() < 0.08 and nv > 1:
            n = 0
        tracks[v] = {'commands': seq(n, bodies, True)}
    if rng.random() < 0.1 and nv < 8:      # a sequence that two voices play
        voices = voices + [rng.choice(voices)]
    parts = [{'tracks': voices}]
    while rng.random() < several and len(parts) < 6:        # more parts, of the same sequences in other places
        more = [rng.choice(voices) for _ in range(rng.randint(1, 8))]
        if len(tracks) < 12 and rng.random() < 0.7:         # and of new ones
            more[rng.randrange(len(more))] = len(tracks)
            tracks.append({'commands': seq(rng.randint(1, size), bodies, True)})
        if any(tracks[v]['commands'] for v in more):
            parts.append({'tracks': more})
        several = 0.5
    # now and then a sequence that nothing refers to
    return prune({'parts': parts, 'tracks': tracks}, range(nv + nl) if rng.random() < spare else ())


def encode_song(rng, behaviours):
    """Songs of the design model MEncode, each a voice and the sequence it calls:
    ([(0, d, v)..], [(call?, d or count, v)..])."""
    tracks, voices = [], []
    for body, voice in behaviours:
        ds = {1: rng.choice([1, 24, 127, rng.randint(1, 127)]), 2: rng.choice([3, 48, 126, rng.randint(1, 127)])}
        vs = {1: (rng.randint(1, 15), rng.randint(1, 7)), 2: (rng.randint(1, 15), rng.randint(1, 7))}
        if rng.random() < 0.3:
            vs[2] = (vs[1][0], vs[2][1]) if rng.random() < 0.5 else (vs[2][0], vs[1][1])
        unset = lambda: rng.choice([None, None, 0])

        def note(d, v, first):
            a, b = vs[v] if v else (unset(), unset())
            op = rng.choice(['Note'] * 6 + ['Tie', 'Rest'])
            return cmd(op, [rng.randint(0x80, 0xc7)] if op == 'Note' else [], d=ds[d] if d else unset(), v=a, s=b)
        calls = any(x[0] for x in voice)
        mine = len(tracks)
        tracks.append(None)
        if calls:
            def control(d):
                op = rng.choice(sorted(PARAMS))
                return cmd(op, [rng.randint(0, 255) for _ in range(PARAMS[op])], d=ds[d] if d else unset())
            tracks.append({'commands': [control(d) if k == 2 else note(d, v, j == 0) for j, (k, d, v) in enumerate(body)]})
        out = []
        for j, (k, d, v) in enumerate(voice):
            if k:
                z = unset()
                out.append({'duration': z, 'velocity': z, 'sustain': z, 'command': {'CallLoop': [mine + 1, d]}})
            else:
                out.append(note(d, v, j == 0))
            if rng.random() < 0.1:
                op = rng.choice(sorted(PARAMS))
                out.append(cmd(op, [rng.randint(0, 255) for _ in range(PARAMS[op])]))
        tracks[mine] = {'commands': out}
        voices.append(mine)
    return {'parts': [{'tracks': voices}], 'tracks': tracks}


def prune(s, keep=()):
    """Leaves out sequences that nothing refers to."""
    keep = {v for p in s['parts'] for v in p['tracks']} | set(keep)
    for t in s['tracks']:
        for c in t['commands']:
            if isinstance(c['command'], dict) and 'CallLoop' in c['command']:
                keep.add(c['command']['CallLoop'][0])
    num = {old: i for i, old in enumerate(sorted(keep))}
    for t in s['tracks']:
        for c in t['commands']:
            if isinstance(c['command'], dict) and 'CallLoop' in c['command']:
                c['command']['CallLoop'][0] = num[c['command']['CallLoop'][0]]
    return {'parts': [{'tracks': [num[v] for v in p['tracks']]} for p in s['parts']],
            'tracks': [s['tracks'][i] for i in sorted(keep)]}
