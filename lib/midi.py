"""MIDI files: a case is (tpb, tracks); a track is a list of events
(tick, kind, ch, a, b), kinds: on off off0 pc cc bend chanp polyat tempo text sysex."""
import random


def vlq(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.insert(0, (n & 0x7f) | 0x80)
        n >>= 7
    return bytes(out)


def ev_bytes(e):
    _, k, c, a, b = e
    if k == 'on':
        return bytes([0x90 | c, a, b])
    if k == 'off':
        return bytes([0x80 | c, a, b])
    if k == 'off0':
        return bytes([0x90 | c, a, 0])
    if k == 'pc':
        return bytes([0xc0 | c, a])
    if k == 'cc':
        return bytes([0xb0 | c, a, b])
    if k == 'bend':
        return bytes([0xe0 | c, a, b])
    if k == 'chanp':
        return bytes([0xd0 | c, a])
    if k == 'polyat':
        return bytes([0xa0 | c, a, b])
    if k == 'tempo':
        return b'\xff\x51\x03' + a.to_bytes(3, 'big')
    if k == 'text':
        return b'\xff' + bytes([a]) + vlq(b) + b'x' * b
    if k == 'sysex7':
        return b'\xf7' + vlq(b) + b'\x22' * b
    if k == 'sysex':
        return b'\xf0' + vlq(b + 1) + b'\x11' * b + b'\xf7'
    raise ValueError(k)


def smf(tpb, tracks, fmt=1, running=False):
    out = b'MThd' + (6).to_bytes(4, 'big') + fmt.to_bytes(2, 'big') + len(tracks).to_bytes(2, 'big') \
        + tpb.to_bytes(2, 'big')
    for t in tracks:
        d = bytearray()
        last = 0
        status = None
        for e in t:
            if e[1] == 'end':              # the track ends later than its last event
                continue
            d += vlq(e[0] - last)
            last = e[0]
            b = ev_bytes(e)
            if b[0] < 0xf0:
                if running and b[0] == status:
                    d += b[1:]
                else:
                    d += b
                status = b[0]
            else:
                d += b
                status = None
        d += vlq(t[-1][0] - last if t else 0) + b'\xff\x2f\x00'
        out += b'MTrk' + len(d).to_bytes(4, 'big') + bytes(d)
    return out


def write(path, tpb, tracks, **kw):
    with open(path, 'wb') as f:
        f.write(smf(tpb, tracks, **kw))


KIND = {'on': 'on', 'off': 'off', 'off0': 'off', 'pc': 'pc', 'cc': 'cc', 'tempo': 'tempo',
        'text': 'meta', 'sysex': 'meta', 'sysex7': 'meta', 'end': 'meta'}


def to_model(tracks):
    """The tracks as the records the specification reads."""
    return [[{'t': t, 'k': KIND.get(k, 'chan'), 'c': c, 'a': a, 'b': b} for (t, k, c, a, b) in tr]
            for tr in tracks]


# controllers that say nothing about volume, portamento or which notes sound (no channel mode messages);
# the commonest ones and the neighbours of those that mean something more often
OTHER_CC = [k for k in range(120) if k not in (5, 7, 37, 65)] + [1, 10, 11, 64, 91, 93, 11, 64, 39, 39, 69, 4, 6, 36, 38, 66] * 3
PRIO = {'off': 0, 'off0': 0, 'on': 2}


# ------------------------------------------------------------------ generators

class Pitches:
    """Hands out pitches so that no two channels can sound the same driver pitch."""

    def __init__(self, rng, reserved=()):
        self.rng = rng
        self.free = [p for p in range(24, 96) if p not in reserved]
        rng.shuffle(self.free)

    def take(self, n, odd=0.1):
        out = []
        for _ in range(n):
            p = self.free.pop()
            raw = p
            if self.rng.random() < odd:      # outside the driver's range, folding to p
                alt = [x for x in range(0, 24) if x % 12 + 24 == p] + \
                      [x for x in range(96, 128) if x % 12 + 84 == p]
                if alt:
                    raw = self.rng.choice(alt)
            out.append(raw)
        return out


TPBS = [24, 48, 72, 96, 120, 192, 240, 384, 480, 480, 960]
ODD_TPBS = [25, 30, 32, 50, 64, 100, 101, 125, 128, 200, 250, 256, 300, 500]


def line(rng, tpb, n, pitches, t_end=None, legato=0.5, longp=0.03, grid=0.7, start=None,
         mint=1):
    """A monophonic line: list of (pitch, on, off, velocity). Every note lasts at least
    mint driver ticks (more than one where a channel has several voices, so that notes of one
    pitch on different voices can be told apart)."""
    tick = -(-tpb * mint // 24)
    unit = max(tick, tpb // 24)
    out = []
    t = rng.choice([0, 0, rng.randrange(0, 4 * tpb), rng.randrange(0, tpb)]) if start is None else start
    phrase = []
    while len(out) < n:
        if phrase and rng.random() < 0.5:
            use = phrase
        else:
            use = []
            for _ in range(rng.randint(1, 7)):
                if rng.random() < grid:
                    d = unit * rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 36, 48])
                    g = 0 if rng.random() < legato else unit * rng.choice([1, 2, 3, 4, 6, 12, 24, 48])
                else:
                    d = rng.randint(tick, max(tick, 3 * tpb))
                    g = 0 if rng.random() < legato else rng.randint(1, 3 * tpb)
                if rng.random() < longp:
                    d = rng.randint(4 * tpb, 24 * tpb)
                if rng.random() < longp:
                    g = rng.randint(4 * tpb, 30 * tpb)
                use.append((rng.choice(pitches), d, g, rng.choice([1, 7, 8, 9, 64, 80, 100, 127, rng.randint(1, 127)])))
            phrase = use
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            for p, d, g, v in use:
                out.append((p, t, t + d, v))
                t += d + g
    out = out[:n]
    if t_end is not None:
        out = [x for x in out if x[2] <= t_end]
    return out


def line_events(rng, ch, notes, retrigger=0.1, off0=0.3):
    """Note events of one line; sometimes a note is ended by being struck again."""
    ev = []
    i = 0
    for i, (p, on, off, v) in enumerate(notes):
        ev.append((on, 'on', ch, p, v))
        nxt = notes[i + 1] if i + 1 < len(notes) else None
        if nxt and nxt[0] == p and nxt[1] == off and rng.random() < max(retrigger * 3, 0.3):
            continue                       # struck again: no note-off of its own
        ev.append((off, 'off0' if rng.random() < off0 else 'off', ch, p, rng.randint(0, 127)))
        if rng.random() < 0.03:
            nextsame = [x for x in notes[i + 1:] if x[0] == p]
            if not nextsame or nextsame[0][1] > off:
                ev.append((off, 'off', ch, p, 0))      # stray second note-off
    return ev


def arrange(rng, tpb, per_channel, extra, layout=None, junk=0.0):
    """Distributes channel events over tracks. per_channel: {ch: [events]}; extra: meta events.
    At one tick note-offs of a pitch precede its note-ons and settings precede note-ons."""
    chans = sorted(per_channel)
    layout = layout or rng.choice(['own', 'own', 'merged', 'pairs'])
    tracks = []
    if layout == 'own':
        groups = [[c] for c in chans]
        rng.shuffle(groups)
    elif layout == 'merged':
        groups = [chans]
    else:
        rng.shuffle(chans)
        groups = [chans[i:i + 2] for i in range(0, len(chans), 2)]
    meta = list(extra)
    for g in groups:
        ev = [e for c in g for e in per_channel[c]]
        if junk:
            horizon = max([e[0] for e in ev] + [0])
            for _ in range(int(len(ev) * junk) + 1):
                t = rng.randint(0, horizon)
                c = rng.choice(g)
                ev.append(rng.choice([
                    (t, 'text', 0, rng.choice([1, 3, 5, 6]), rng.randint(0, 9)),
                    (t, 'sysex', 0, 0, rng.randint(1, 5)),
                    (t, 'bend', c, 0, 64),
                    (t, 'chanp', c, 10, 0),
                    (t, 'polyat', c, 60, 10),
                    (t, 'cc', c, rng.choice(OTHER_CC), rng.randint(0, 127)),
                ]))
        ev = [(e, rng.random()) for e in ev]
        ev.sort(key=lambda x: (x[0][0], PRIO.get(x[0][1], 1), x[1]))
        tracks.append([e for e, _ in ev])
    if rng.random() < 0.7 or not tracks:
        tracks.insert(0, sorted(meta, key=lambda e: e[0]))
    else:
        k = rng.randrange(len(tracks))
        ev = tracks[k] + meta
        ev.sort(key=lambda e: (e[0], PRIO.get(e[1], 1)))
        tracks[k] = ev
    return tracks


def snare_roll(rng, tpb, n, others):
    """Hits of the percussion channel, at most two at a time; both snares often sound together.  They
    play the same pitch, so hits start at least 5 driver ticks apart."""
    u = -(-tpb // 24)
    on, t, hits = {}, rng.choice([0, 0, rng.randrange(tpb)]), []
    for _ in range(n):
        on = {p: e for p, e in on.items() if e > t}
        if len(on) < 2:
            p = rng.choice([x for x in [38, 40] * 3 + list(others) if x not in on])
            on[p] = t + rng.choice([5 * u, 6 * u, tpb // 2, tpb, 2 * tpb]) + rng.choice([0, 0, rng.randint(0, tpb)])
            hits.append((p, t, on[p]))
        t += rng.choice([5 * u, 6 * u, tpb // 2, tpb // 2, tpb]) + rng.choice([0, 0, rng.randint(0, u)])
    ev = []
    for p, a, b in hits:
        ev += [(a, 'on', 9, p, rng.randint(1, 127)), (b, 'off' if rng.random() < 0.7 else 'off0', 9, p, rng.randint(0, 127))]
    return ev


def gen_song(rng, tpb=None, channels=None, nnotes=40, settings=0.3, tempos=3, drums=None,
             poly=True, odd_pitch=0.15, junk=None, odd_tpb=0.15, share=0.3, longp=0.03, layout=None):
    """A random song that can be converted: lines of single notes per channel, with extra
    simultaneous lines on one channel while voices remain. Returns dict(tpb, tracks)."""
    if tpb is None:
        tpb = rng.choice(ODD_TPBS) if rng.random() < odd_tpb else rng.choice(TPBS)
    if drums is None:
        drums = rng.random() < 0.3
    nch = channels if channels is not None else rng.choice([1, 1, 2, 3, 4, 5, 6, 8])
    chans = rng.sample([c for c in range(16) if c != 9], nch - (1 if drums else 0))
    if drums:
        chans.append(9)
    pit = Pitches(rng, reserved=(68, 38, 40) if drums else ())
    per = {}
    free = 8 - nch
    horizon = 0
    for c in chans:
        if c == 9:
            ps = pit.take(rng.randint(1, 3), 0)
            more = poly and free > 0 and rng.random() < 0.6
            pool = ps + [38, 40, 38]
            mint = 5 if more else 1
            notes = line(rng, tpb, max(1, nnotes // nch), pool, legato=0.3, longp=longp, mint=mint)
            ev = line_events(rng, c, notes)
            horizon = max([horizon] + [e[0] for e in ev])
            if more and rng.random() < 0.5:
                ev = snare_roll(rng, tpb, max(2, nnotes // nch), ps)
                horizon = max([horizon] + [e[0] for e in ev])
                free -= 1
            elif more:
                ps2 = pit.take(2, 0)
                notes2 = line(rng, tpb, max(1, nnotes // nch // 2), ps2, legato=0.3, longp=longp, mint=mint)
                ev += line_events(rng, c, notes2)
                free -= 1
        else:
            lines = 0
            while poly and lines < free and rng.random() < 0.35:
                lines += 1
            mint = 5 if lines else 1
            notes = line(rng, tpb, max(1, nnotes // nch), pit.take(rng.randint(1, 4), odd_pitch), longp=longp, mint=mint)
            ev = line_events(rng, c, notes)
            for _ in range(lines):
                if len(pit.free) > 20:
                    more = line(rng, tpb, max(1, nnotes // nch // 2), pit.take(rng.randint(1, 2), odd_pitch),
                                longp=longp, mint=mint)
                    ev += line_events(rng, c, more)
            free -= lines
        horizon = max([horizon] + [e[0] for e in ev])
        onsets = sorted({e[0] for e in ev if e[1] == 'on'})
        if rng.random() < 0.8:
            ev.append((0, 'pc', c, rng.randint(0, 127), 0))
        if rng.random() < 0.8:
            ev.append((0, 'cc', c, 7, rng.randint(0, 127)))
        for _ in range(int(len(notes) * settings * rng.random())):
            t = rng.choice([rng.choice(onsets), rng.randint(0, horizon), rng.choice(onsets) + 1])
            if rng.random() < 0.5:
                ev.append((t, 'pc', c, rng.randint(0, 127), 0))
            else:
                ev.append((t, 'cc', c, 7, rng.randint(0, 127)))
        per[c] = ev
    extra = []
    for _ in range(rng.randint(0, tempos)):
        t = rng.choice([0, rng.randint(0, horizon + tpb), rng.randint(0, horizon + tpb)])
        us = rng.choice([500000, 600000, 400000, 1000000, 250000, 300000,
                         rng.randint(200000, 2000000), rng.randint(1, 16777215)])
        extra.append((t, 'tempo', 0, us, 0))
    extra.sort(key=lambda e: e[0])
    if junk is None:
        junk = rng.choice([0, 0, 0.1])
    tracks = arrange(rng, tpb, per, extra, layout, junk)
    return {'tpb': tpb, 'tracks': tracks, 'running': rng.random() < 0.3}


def gen_repetitive(rng, size=60, port=None):
    """A song full of repetition: few cells, repeated, nested, shared between channels, with
    settings, tempo changes and portamento inside the repeated phrases."""
    tpb = rng.choice([24, 24, 48, 96, 480])
    u = tpb // 24
    nch = rng.choice([1, 1, 2, 2, 3, 4])
    port = rng.random() < 0.4 if port is None else port
    pitches = [rng.randint(40, 80) for _ in range(rng.choice([1, 2, 2, 3, 5]))]
    durs = [rng.choice([1, 6, 12, 24, 48, 130, 200]) for _ in range(rng.choice([1, 1, 2, 3]))]
    gaps = [0] + [rng.choice([0, 6, 24, 3, 150]) for _ in range(rng.choice([0, 1, 2]))]
    vels = [80] + ([40] if rng.random() < 0.3 else [])
    chans = rng.sample([c for c in range(16) if c != 9], nch)

    def cell():
        x = []
        if rng.random() < 0.1:
            x.append(('pc', rng.choice([0, 40, 60])))
        if rng.random() < 0.1:
            x.append(('cc', 7, rng.choice([50, 100])))
        if port and rng.random() < 0.3:
            x.append(('cc', 65, rng.choice([0, 127])))
        if port and rng.random() < 0.2:
            x.append(('cc', rng.choice([5, 37]), rng.choice([0, 1, 6 * u, 20])))
        x.append(('note', rng.choice(pitches), rng.choice(durs), rng.choice(gaps), rng.choice(vels)))
        return x

    def phrase(depth):
        if depth == 0 or rng.random() < 0.3:
            return [cell() for _ in range(rng.randint(1, 6))]
        out = []
        for _ in range(rng.randint(1, 3)):
            p = phrase(depth - 1)
            out += p * rng.choice([1, 1, 2, 2, 3, 4, 7])
            if rng.random() < 0.2:
                out += p[:rng.randint(1, len(p))]
        return out
    shared = [phrase(rng.randint(0, 2)) for _ in range(2)]
    per = {}
    horizon = 1
    for c in chans:
        cells = []
        while len(cells) < size // nch:
            cells += rng.choice(shared) if rng.random() < 0.6 else phrase(rng.randint(0, 2))
        cells = cells[:max(1, size // nch)]
        ev = []
        t = 0 if rng.random() < 0.7 else rng.randint(0, 10 * tpb)
        for x in cells:
            for e in x:
                if e[0] == 'pc':
                    ev.append((t, 'pc', c, e[1], 0))
                elif e[0] == 'cc':
                    ev.append((t, 'cc', c, e[1], e[2]))
                else:
                    _, p, d, g, v = e
                    ev.append((t, 'on', c, p, v))
                    ev.append((t + d * u, 'off', c, p, 0))
                    t += (d + g) * u
        per[c] = ev
        horizon = max(horizon, t)
    extra = []
    if rng.random() < 0.4:
        step = rng.choice([24, 96, 48]) * u
        t = 0
        while t < horizon and len(extra) < 40:
            extra.append((t, 'tempo', 0, rng.choice([500000, 600000]), 0))
            t += step
    return {'tpb': tpb, 'tracks': arrange(rng, tpb, per, extra, 'own', 0)}


def word_song(words, u=1, dur=6):
    """A melody per channel spelling a word: a b c are struck notes, r a rest, d e are notes
    reached by portamento, p a program change before the next note."""
    per = []
    pitch = {'a': 60, 'b': 62, 'c': 64, 'd': 65, 'e': 67}
    for ch, w in enumerate(words):
        ev = []
        t = 0
        port = None
        for x in w:
            if x == 'r':
                t += dur * u
                continue
            if x == 'p':
                ev.append((t, 'pc', ch, 0, 0))
                continue
            want = x in 'de'
            if port != want:
                ev.append((t, 'cc', ch, 65, 127 if want else 0))
                port = want
            ev.append((t, 'on', ch, pitch[x], 80))
            ev.append((t + dur * u, 'off', ch, pitch[x], 0))
            t += dur * u
        if w and w[-1] in 'rp':
            ev.append((t, 'cc', ch, 1, 0))
        per.append(ev)
    return {'tpb': 24 * u, 'tracks': [sorted(ev, key=lambda e: (e[0], PRIO.get(e[1], 1))) for ev in per]}


def few_values(rng):
    """Sources of programs and volumes; in half of the songs only a few values, so that channels
    sharing a voice agree by chance, also with the numbers of the drum sounds."""
    if rng.random() < 0.5:
        return lambda: rng.randint(0, 127), lambda: rng.randint(0, 127)
    ps, vs = rng.sample([12, 19, 12, 19, rng.randint(0, 127), 0], 3), rng.sample(range(128), 2)
    return lambda: rng.choice(ps), lambda: rng.choice(vs)


def gen_shared(rng, tpb=None, groups=None, nnotes=60, settings=0.5, tempos=2, drums=None, max_ch=16,
               poly=True, longp=0.03, junk=0.05, layout=None, maxruns=6):
    """A song whose channels never sound together within a group: up to 16 channels on up to 8
    voices. Returns the song with its witness partition (list of channel lists)."""
    tpb = tpb or rng.choice(TPBS)
    ng = groups or rng.choice([1, 2, 3, 4, 6, 8, 8])
    if drums is None:
        drums = rng.random() < 0.4
    pool = [c for c in range(16) if c != 9]
    rng.shuffle(pool)
    if drums:
        pool.insert(rng.randrange(len(pool)), 9)
    pool = pool[:max_ch]
    ng = min(ng, len(pool))
    part = [[] for _ in range(ng)]
    for i, c in enumerate(pool[:rng.randint(ng, len(pool))]):
        part[i if i < ng else rng.randrange(ng)].append(c)
    part = [p for p in part if p]
    pit = Pitches(rng, reserved=(68, 38, 40))
    pitches = {}
    for p in part:
        for c in p:
            pitches[c] = pit.take(rng.randint(1, 3), 0 if c == 9 else 0.1) + ([38, 40] if c == 9 else [])
    per = {c: [] for p in part for c in p}
    notes_of = {c: [] for c in per}
    horizon = 0
    extra_lines = set()
    if poly and len(per) < 8:
        extra_lines = set(rng.sample(sorted(per), rng.randint(0, min(len(per), 8 - len(per)))))
    for p in part:
        mint = 5 if extra_lines & set(p) else 1
        notes = line(rng, tpb, max(2, nnotes // len(part)), [0], longp=longp, legato=0.6, mint=mint)
        i = 0
        while i < len(notes):
            c = rng.choice(p)
            n = rng.randint(1, maxruns)
            for (_, on, off, v) in notes[i:i + n]:
                notes_of[c].append((rng.choice(pitches[c]), on, off, v))
            i += n
        horizon = max([horizon] + [x[2] for x in notes])
    for c in per:
        per[c] = line_events(rng, c, notes_of[c])
    for c in sorted(extra_lines):
        if len(pit.free) > 4:
            more = line(rng, tpb, max(1, nnotes // len(part) // 2), pit.take(2, 0), longp=longp, mint=5)
            horizon = max([horizon] + [x[2] for x in more])
            per[c] += line_events(rng, c, more)
    prog, vol = few_values(rng)
    for c in per:
        onsets = sorted({e[0] for e in per[c] if e[1] == 'on'}) or [0]
        if rng.random() < 0.8:
            per[c].append((0, 'pc', c, prog(), 0))
        if rng.random() < 0.8:
            per[c].append((0, 'cc', c, 7, vol()))
        for _ in range(int(len(onsets) * settings * rng.random() * 2)):
            t = rng.choice([rng.choice(onsets), rng.choice(onsets) + 1, rng.randint(0, horizon)])
            per[c].append((t, 'pc', c, prog(), 0) if rng.random() < 0.5 else (t, 'cc', c, 7, vol()))
    extra = sorted([(rng.randint(0, horizon + tpb), 'tempo', 0, rng.randint(200000, 2000000), 0)
                    for _ in range(rng.randint(0, tempos))], key=lambda e: e[0])
    return {'tpb': tpb, 'tracks': arrange(rng, tpb, per, extra, layout, junk), 'partition': part,
            'running': rng.random() < 0.3}


def add_porta(rng, s, p=0.5, drums=False):
    """Portamento switched on and off on the melodic channels (and the drums), at any time."""
    if rng.random() > p:
        return s
    tick = -(-s['tpb'] // 24)
    mode = rng.choice(['on', 'some', 'flip'])
    for k, tr in enumerate(s['tracks']):
        new = []
        for c in sorted({e[2] for e in tr if e[1] == 'on' and (drums or e[2] != 9)}):
            if mode == 'some' and rng.random() < 0.5:
                continue
            onsets = [e[0] for e in tr if e[1] == 'on' and e[2] == c]
            if mode != 'flip' or rng.random() < 0.7:
                new.append((rng.choice([0, 0, onsets[0], rng.choice(onsets)]), 'cc', c, 65, rng.choice([64, 127])))
            for _ in range(rng.randint(0, 1 + len(onsets) // 3) if mode == 'flip' else 0):
                new.append((rng.choice(onsets) + rng.choice([0, 0, 1]), 'cc', c, 65, rng.choice([0, 0, 63, 64, 127])))
            for _ in range(rng.choice([0, 1, 1, 3])):
                new.append((rng.choice([0, rng.choice(onsets)]), 'cc', c, rng.choice([5, 37, 37]),
                            rng.choice([0, 1, tick, 60, rng.randint(0, 127)])))
        s['tracks'][k] = sorted(tr + new, key=lambda e: (e[0], PRIO.get(e[1], 1)))
    return s


def add_tail(rng, s, p=0.5):
    """Settings after the last note, which move the end of the song."""
    if rng.random() > p:
        return s
    last = max([e[0] for t in s['tracks'] for e in t] + [0])
    k = rng.randrange(len(s['tracks']))
    t = last + rng.randint(1, 6 * s['tpb'])
    c = rng.choice([0, 1, 5, 9])
    s['tracks'][k] = s['tracks'][k] + [rng.choice([
        (t, 'cc', c, 7, 100), (t, 'cc', c, 10, 1), (t, 'pc', c, 5, 0), (t, 'bend', c, 0, 64),
        (t, 'tempo', 0, 500000, 0), (t, 'text', 0, 1, 3), (t, 'chanp', c, 3, 0), (t, 'off', c, 1, 0),
        (t, 'polyat', c, 60, 3), (t, 'polyat', c, 60, 3), (t, 'text', 0, 1, 3)])]
    return s


def far(rng, s, ticks=None):
    """The song with a long time put in at some moment, so that what follows has large times:
    over 65,535 MIDI ticks, or over 65,535 driver ticks."""
    ticks = ticks or rng.choice([65536 * min(s['tpb'], 800) // 24, 65536, 66000, 70000 * min(s['tpb'], 900) // 24])
    ts = sorted({e[0] for t in s['tracks'] for e in t})
    at = rng.choice(ts[:len(ts) // 2 + 1]) if rng.random() < 0.6 else rng.choice(ts)
    at = max(at, 1)
    s['tracks'] = [[(e[0] + ticks if e[0] >= at else e[0],) + tuple(e[1:]) for e in t] for t in s['tracks']]
    return s


def unison(rng, s, tries=4):
    """The song with channels that play the same pitches, often at the same time; notes of one pitch
    start at least 5 driver ticks apart, so that it stays clear which is which."""
    apart = -(-s['tpb'] * 5 // 24)
    for _ in range(tries):
        use = {}
        for t in s['tracks']:
            for e in t:
                if e[1] in ('on', 'off', 'off0', 'polyat'):
                    use.setdefault((e[2], e[3]), set()).add(e[0] if e[1] == 'on' and e[4] else None)
        keys = sorted(k for k in use if not (k[0] == 9 and k[1] in (38, 40, 68)))
        if len(keys) < 2:
            break
        a, b = rng.sample(keys, 2)
        same = [k for k in keys if driver_pitch(k[1]) == driver_pitch(a[1])]
        if a[0] == b[0] or any(k[0] == b[0] for k in same) or b[1] in (38, 40, 68) or driver_pitch(a[1]) == 68 and b[0] == 9:
            continue
        # all notes of the driver's pitch, now and then
        times = sorted(t for k in set(same) | {k for k in keys if k == b} for t in use[k] if t is not None)
        if any(y - x < apart for x, y in zip(times, times[1:])):
            continue
        s['tracks'] = [[tuple(e[:3]) + (a[1],) + tuple(e[4:]) if e[1] in ('on', 'off', 'off0', 'polyat') and (e[2], e[3]) == b else e
                        for e in t] for t in s['tracks']]
    return s


def hanging(rng, s):
    """The song without the end of one of its last notes: it is never played, and nothing leads to it."""
    last = {}
    for k, t in enumerate(s['tracks']):
        for i, e in enumerate(t):
            if e[1] in ('on', 'off', 'off0'):
                last.setdefault(e[2], []).append((e[0], k, i))
    ends, gone = sorted((max(v)[0], c) for c, v in last.items())[-2:], set()
    for _, c in ends:
        if rng.random() < 0.6:
            t, k, i = max(last[c])
            e = s['tracks'][k][i]
            if e[1] != 'on' and not any(x != (t, k, i) and s['tracks'][x[1]][x[2]][1] == 'on' and x[0] == t for x in last[c]):
                gone.add((k, i))
    s['tracks'] = [[e for i, e in enumerate(t) if (k, i) not in gone] for k, t in enumerate(s['tracks'])]
    return s


def driver_pitch(n):
    return n % 12 + 24 if n < 24 else n % 12 + 84 if n > 95 else n


def far_songs(rng, n, **kw):
    """Songs of one or two lines with large times; time bases up to the largest there is."""
    out = []
    for k in range(n):
        tpb = rng.choice([24, 96, 480, 960] if k % 2 else [24, 960, 1000, 9600, 15360, 32767, 32760])
        while True:
            s = far(rng, gen_song(rng, tpb=tpb, channels=rng.choice([1, 1, 2]), nnotes=rng.choice([4, 20]), poly=False,
                                  longp=0.1, **kw), rng.choice([65536, 66000, 70000, 131000]) * tpb // 24 + 1 if k % 2 else None)
            if max(e[0] for t in s['tracks'] for e in t) < 8000000:    # TLC's integers have 32 bits
                break
        out.append(s)
    return out


def sweep_songs(rng):
    """Every pitch with every class of velocity, every program and every volume, on one line of a channel."""
    tpb = rng.choice([24, 96, 480])
    u = tpb // 24
    out = []
    pitches = [p for p in range(128)]
    rng.shuffle(pitches)
    vels = list(range(1, 128))
    rng.shuffle(vels)
    progs, vols = list(range(128)), list(range(128))
    rng.shuffle(progs)
    rng.shuffle(vols)
    for part in range(4):
        c = rng.choice([c for c in range(16) if c != 9])
        ev, t = [], 0
        for i in range(part * 32, part * 32 + 32):
            ev += [(t, 'pc', c, progs[i], 0), (t, 'cc', c, 7, vols[i]),
                   (t, 'on', c, pitches[i], vels[i % 127]), (t + 6 * u, 'off', c, pitches[i], 0)]
            t += 12 * u
        out.append({'tpb': tpb, 'tracks': [ev], 'running': rng.random() < 0.3})
    return out


def drum_sweep(rng):
    """Every drum note, followed by another one of each kind."""
    tpb = rng.choice([24, 96, 480])
    u = tpb // 24
    out = []
    notes = list(range(128))
    rng.shuffle(notes)
    for part in range(4):
        ev, t = [], 0
        for n in notes[32 * part:32 * part + 32]:
            for m in rng.choice([[n], [n, 38], [n, 40], [n, n], [38, n]]):
                ev += [(t, 'on', 9, m, rng.randint(1, 127)), (t + 6 * u, 'off', 9, m, 0)]
                t += 12 * u
        out.append({'tpb': tpb, 'tracks': [ev], 'running': False})
    return out


def gen_dense(rng, channels, lines, nnotes=60, drums=False):
    """A song in which close to eight notes sound together: `lines` lines spread over `channels`
    channels, as independent lines or as chords."""
    tpb = rng.choice(TPBS)
    chans = rng.sample([c for c in range(16) if c != 9], channels)
    if drums:
        chans[rng.randrange(channels)] = 9
    per = {c: [] for c in chans}
    pit = Pitches(rng, reserved=(68, 38, 40))
    spread = chans + [rng.choice(chans) for _ in range(max(0, lines - channels))]
    if rng.random() < 0.4:                # chords
        for c in chans:
            k = spread.count(c)
            ps = pit.take(k, 0.05 if c != 9 else 0)
            t = rng.choice([0, 0, rng.randrange(2 * tpb)])
            for _ in range(max(1, nnotes // lines)):
                d = tpb * rng.choice([1, 1, 2, 4]) // rng.choice([1, 2])
                sub = rng.sample(ps, rng.choice([k, k, rng.randint(1, k)]))
                stag = rng.random() < 0.3
                for i, p in enumerate(sub):
                    on = t + (i * (tpb // 24) if stag else 0)
                    off = max(t + d - (rng.randint(0, 3) * (tpb // 24) if stag else 0), on + 5 * (tpb // 24))
                    per[c].append((on, 'on', c, p, rng.randint(8, 127)))
                    per[c].append((off, 'off', c, p, 0))
                t += d + 13 * (tpb // 24) + rng.choice([0, 0, tpb])
    else:
        for c in spread:
            mint = 5
            ps = pit.take(rng.randint(1, 3), 0.05 if c != 9 else 0)
            # few rests, long notes: most lines sound most of the time
            notes = line(rng, tpb, max(1, nnotes // lines), ps, longp=0.1, legato=0.7, mint=mint)
            per[c] += line_events(rng, c, notes)
    for c in chans:
        if rng.random() < 0.5:
            per[c].append((0, 'pc', c, rng.randint(0, 127), 0))
    return {'tpb': tpb, 'tracks': arrange(rng, tpb, per, [], None, rng.choice([0, 0, 0.05])),
            'running': rng.random() < 0.3}


def relabel(rng, s):
    """Gives the channels (other than the percussion channel) of a song other numbers."""
    cs = [c for c in range(16) if c != 9]
    perm = cs[:]
    rng.shuffle(perm)
    f = dict(zip(cs, perm))
    f[9] = 9
    g = lambda e: e if e[1] in ('tempo', 'text', 'sysex') else (e[0], e[1], f[e[2]], e[3], e[4])
    out = dict(s, tracks=[[g(e) for e in t] for t in s['tracks']])
    if 'partition' in s:
        out['partition'] = [[f[c] for c in p] for p in s['partition']]
    return out


def pattern_song(act, background):
    """Channels 0..n-1 sound in the given time slots, one note each; further channels hold one note
    throughout."""
    per = []
    for c, slots in enumerate(act):
        ev = []
        for s in sorted(slots):
            ev.append(((s - 1) * 48, 'on', c, 60, 80))
            ev.append((s * 48, 'off', c, 60, 0))
        per.append(ev)
    used = len(act)
    chans = [c for c in range(16) if c != 9][:]
    bg = [c for c in chans if c >= used][:background]
    for c in bg:
        per.append([(0, 'on', c, 40 + c, 80), (600, 'off', c, 40 + c, 0)])
    return {'tpb': 24, 'tracks': per, 'partition': None, 'bg': bg}


def alloc_song(rng, start, hists, drum=False, setting=None):
    """Histories of the design model MAlloc, one after another: two channels (one of them may be the
    percussion channel), five that hold a note throughout, so that one or two voices are nobody's own."""
    chans = [c for c in range(16) if c != 9]
    rng.shuffle(chans)
    ch = {1: chans[0], 2: 9 if drum else chans[1]}
    bg = chans[2:7]
    ps = list(range(30, 90))
    rng.shuffle(ps)
    ps = [p for p in ps if p not in (68, 38, 40)]
    key = {(c, n): ps.pop() for c in (1, 2) for n in (1, 2)}
    if drum:
        key[(2, rng.choice([1, 2]))] = rng.choice([38, 40])
    k = rng.choice([1, 1, 2, 4])
    tpb, u = 24 * k, 3 * k
    setting = setting or rng.choice(['pc', 'pc', 'cc', 'both'])
    vals = {1: (rng.choice([0, 56, 60, 73]), rng.randint(1, 127)), 2: (rng.choice([8, 16, 24 + 56, 100]), rng.randint(1, 127))}

    def setting_events(t, c, v):
        out = []
        if setting in ('pc', 'both'):
            out.append((t, 'pc', ch[c], vals[v][0], 0))
        if setting in ('cc', 'both'):
            out.append((t, 'cc', ch[c], 7, vals[v][1]))
        return out
    per = {c: [] for c in (1, 2)}
    t = 0
    if start:
        for c in (1, 2):
            per[c] += setting_events(0, c, 1)
    for h in hists:
        sounding = set()
        for k, c, n in h:
            if rng.random() < 0.9 or k == 2:
                t += u * rng.choice([2, 4, 4, 8, 60])
            elif k == 0 and (c, n) in sounding:
                t += 2 * u
            if k == 0:
                per[c].append((t, 'on', ch[c], key[(c, n)], rng.randint(1, 127)))
                sounding.add((c, n))
                t += 2 * u if rng.random() < 0.9 else 0
            elif k == 1:
                if per[c] and per[c][-1][0] == t and per[c][-1][1] == 'on':
                    t += 2 * u
                per[c].append((t, rng.choice(['off', 'off', 'off0']), ch[c], key[(c, n)], 0))
                sounding.discard((c, n))
            else:
                per[c] += setting_events(t, c, n)
        t += 4 * u
        for c, n in sorted(sounding):
            per[c].append((t, 'off', ch[c], key[(c, n)], 0))
        t += rng.choice([0, 4 * u])
    tracks = [per[1], per[2]] + [[(0, 'on', c, ps.pop(), 80)] for c in bg]
    for tr in tracks[2:]:
        tr.append((t, 'off', tr[0][2], tr[0][3], 0))
    rng.shuffle(tracks)
    return {'tpb': tpb, 'tracks': tracks, 'partition': None, 'unstarted': True}


def quant_song(rng, tpb, words, marks=('cc', 'pc', 'tempo', 'cc')):
    """Behaviours of the design model MQuant, one on each channel: [(1, gap, length) or (0, gap, 0)]."""
    chans = [c for c in range(16) if c != 9]
    rng.shuffle(chans)
    pool = Pitches(rng)
    tracks = []
    for w, c in zip(words, chans):
        ps = pool.take(rng.choice([1, 2, 3]), 0.0)
        ev, t = [], 0
        for i, (k, g, l) in enumerate(w):
            t += g
            if k:
                p = ps[i % len(ps)]
                ev.append((t, 'on', c, p, rng.randint(1, 127)))
                t += l
                ev.append((t, rng.choice(['off', 'off0']), c, p, 0))
            else:
                m = rng.choice(marks)
                ev.append((t, 'cc', c, 7, rng.randint(0, 127)) if m == 'cc' else (t, 'pc', c, rng.randint(0, 127), 0) if m == 'pc'
                          else (t, 'tempo', 0, rng.randint(300000, 1500000), 0))
        tracks.append(ev)
    rng.shuffle(tracks)
    return {'tpb': tpb, 'tracks': tracks, 'partition': None, 'unstarted': True}


# ------------------------------------------------------------------ unusual files

META_LEN = {0x00: [2], 0x20: [1], 0x21: [1], 0x54: [5], 0x58: [4], 0x59: [2]}


def nasty_event(rng, t, chans, pitches, sysex):
    c = rng.choice(chans)
    x = rng.random()
    if x < 0.38:
        return (t, 'on', c, rng.choice(pitches), rng.choice([1, 7, 8, 127, rng.randint(1, 127)]))
    if x < 0.68:
        return (t, rng.choice(['off', 'off', 'off0']), c, rng.choice(pitches), rng.randint(0, 127))
    if x < 0.76:
        return (t, 'cc', c, rng.choice([5, 7, 37, 65, 65, 1, 10, 64, 91, 120, 121, 123, 127, rng.randint(0, 127)]),
                rng.choice([0, 1, 63, 64, 127, rng.randint(0, 127)]))
    if x < 0.82:
        return (t, 'pc', c, rng.randint(0, 127), 0)
    if x < 0.86:
        return (t, rng.choice(['bend', 'polyat']), c, rng.randint(0, 127), rng.randint(0, 127))
    if x < 0.88:
        return (t, 'chanp', c, rng.randint(0, 127), 0)
    if x < 0.92:
        return (t, 'tempo', 0, rng.choice([0, 1, 5, 16777215, 500000, rng.randint(0, 16777215)]), 0)
    if x < 0.97:
        ty = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x10, 0x20, 0x21, 0x54, 0x58, 0x59, 0x60, 0x7f, 0x7e])
        return (t, 'text', 0, ty, rng.choice(META_LEN.get(ty, [0, 1, 5, 127, 128, 300])))
    return (t, sysex, 0, 0, rng.choice([0, 1, 20, 200]))


def gen_nasty(rng):
    """A well-formed file with everything a clean export does not have."""
    x = rng.random()
    if x < 0.12:                                     # an ordinary song, spoilt
        s = gen_song(rng, nnotes=30) if rng.random() < 0.5 else gen_shared(rng, nnotes=40)
        tr = []
        for t in s['tracks']:
            ev = []
            for e in t:
                if rng.random() < 0.05:
                    continue
                ev.append(e)
                if rng.random() < 0.05:
                    ev.append(e)
                if e[1] == 'on' and rng.random() < 0.05:
                    ev.append((e[0], 'off', e[2], e[3], 0))
            tr.append(ev)
        return dict(s, tracks=tr)
    tpb = rng.choice([1, 2, 3, 5, 7, 12, 23, 24, 25, 96, 480, 960, 0x7fff, rng.randint(1, 0x7fff)])
    nt = rng.choice([0, 1, 1, 2, 3, 5, 17, 40])
    tracks = []
    for _ in range(nt):
        chans = rng.choice([[0], [9], [0, 1], [0, 9], list(range(16)), [rng.randrange(16)]])
        pitches = rng.choice([[60], [60, 61], [38, 40, 68], [0, 127], [23, 24, 95, 96], list(range(128))])
        n = rng.choice([0, 0, 1, 2, 5, 20, 60])
        t, ev = 0, []
        # compression of several voices full of long silence takes minutes: 10,000 beats only once
        budget = min(rng.choice([100, 1000, 10000 if nt == 1 and len(chans) < 3 else 300]) * tpb, 0x0fffffff)
        sysex = rng.choice(['sysex', 'sysex7'])      # (one after the other: see known_findings.txt)
        mode = rng.choice(['dense', 'tick', 'beats', 'long', 'mixed'])
        for _ in range(n):
            m = rng.choice(['dense', 'tick', 'beats', 'long']) if mode == 'mixed' else mode
            d = {'dense': rng.choice([0, 0, 0, 1]), 'tick': rng.choice([0, 1, max(1, tpb // 24)]),
                 'beats': rng.randint(0, 4 * tpb), 'long': rng.choice([0, rng.randint(0, 3000 * tpb), 300 * tpb])}[m]
            if t + d <= budget:
                t += d
            ev.append(nasty_event(rng, t, chans, pitches, sysex))
        if rng.random() < 0.3:                       # mono lines that are at least convertible
            ev = [e for e in ev if e[1] not in ('on', 'off', 'off0')]
            t2 = rng.randint(0, 4 * tpb)
            for _ in range(rng.randint(1, 30)):
                d = rng.choice([0, 1, 1, tpb // 24, tpb, rng.randint(0, 300 * tpb)])
                p = rng.choice(pitches)
                if t2 + d > budget:
                    break
                ev.append((t2, 'on', chans[0], p, rng.randint(1, 127)))
                if rng.random() < 0.97:
                    ev.append((t2 + d, rng.choice(['off', 'off0']), chans[0], p, 0))
                t2 += d + rng.choice([0, 0, 1, tpb])
            if rng.random() < 0.3:                   # gliding, also slowly
                ev += [(t2, 'cc', chans[0], 65, rng.choice([64, 127])) for t2 in (0, rng.randint(0, t2))]
                ev += [(rng.randint(0, t2), 'cc', chans[0], k, rng.choice([0, 1, 3, 5, 30, 100, 127]))
                       for k in (5, 37, 37)]
            ev.sort(key=lambda e: e[0])
        if rng.random() < 0.2:
            t = max([e[0] for e in ev] + [0]) + rng.choice([0, 1, tpb, rng.randint(0, 50 * tpb)])
            ev.append((t, 'end', 0, 0, 0))
        tracks.append(ev)
    return {'tpb': tpb, 'tracks': tracks, 'running': rng.random() < 0.5}


def mono(notes, tpb=24, ch=0):
    """notes: list of (pitch, length, gap)"""
    ev, t = [], 0
    for p, d, g in notes:
        ev.append((t, 'on', ch, p, 80))
        ev.append((t + d, 'off', ch, p, 0))
        t += d + g
    return ev


def big_song(rng, kind):
    """Long repeated passages ('long'), very many different repeated ones ('many'), or long ones
    that two channels share ('shared')."""
    def bar(n):
        return [(rng.randint(24, 95), rng.choice([6, 12, 24]), rng.choice([0, 0, 6])) for _ in range(n)]
    if kind == 'long':
        p = bar(rng.choice([120, 127, 128, 250, 256, 300, 500]))
        notes = p * rng.randint(1, 3) + bar(rng.randint(0, 10)) + p * rng.randint(1, 2) + p[:len(p) // 2] * 2
        return {'tpb': 24, 'tracks': [mono(notes)]}
    if kind == 'many':
        bars = [bar(rng.choice([3, 4, 4, 5])) for _ in range(rng.choice([60, 130, 270, 400]))]
        out = bars + bars
        rng.shuffle(out)
        return {'tpb': 24, 'tracks': [mono(sum(out, []))]}
    p = bar(rng.choice([50, 150]))
    a, b = bar(3) + p + bar(4) + p, bar(1) + p * 2
    return {'tpb': 24, 'tracks': [mono(a), mono(b, ch=1)]}


def worst_cases(rng, thorough):
    """Long files: thousands of notes, heavy repetition, long silences."""
    n = 5000 if thorough else 2000
    out = []

    def add(tpb, *tracks):
        out.append({'tpb': tpb, 'tracks': list(tracks), 'big': True})
    add(24, mono([(60, 6, 0)] * n))
    add(24, mono([(60, 6, 6)] * n))
    add(24, mono([(60 + i % 2, 6, 0) for i in range(n)]))
    add(24, mono([(60 + i % 7, 6, 0) for i in range(n)]))
    add(24, mono([(60 + i % 36, 6 + i % 5, 0) for i in range(n)]))
    add(24, mono([(rng.randint(60, 61), 6, 0) for i in range(n)]))
    add(24, mono([(rng.randint(30, 90), rng.randint(1, 200), rng.choice([0, 3])) for i in range(n)]))
    fib = 'a', 'ab'
    while len(fib[1]) < n:
        fib = fib[1], fib[1] + fib[0]
    add(24, mono([(60 if c == 'a' else 64, 6, 0) for c in fib[1][:n]]))
    add(24, mono([(60 + bin(i).count('1') % 2, 6, 0) for i in range(n)]))
    add(480, *[mono([(40 + 3 * c + i % 4, 120, 0) for i in range(n // 8)], 480, c) for c in range(8)])
    add(480, *[mono([(60, 120, 0)] * (n // 8), 480, c) for c in range(8)])
    add(96, mono([(60, 96 * 10000, 0)]))
    add(96, mono([(60, 96, 96 * 9990), (62, 96, 0)]))
    add(0x6000, mono([(60, 0x6000, 0x6000 * 9990), (62, 1, 0)]))
    add(96, mono([(60, 96, 0)]), [(96 * 10000, 'cc', 3, 7, 100)])
    add(96, mono([(60, 96, 0)]), [(96 * 10000, 'tempo', 0, 500000, 0)])
    add(24, sorted([(i, 'tempo', 0, 500000 + 1000 * (i % 2), 0) for i in range(n)]), mono([(60, n, 0)]))
    add(24, sorted([e for i in range(n) for e in [(6 * i, 'pc', 0, i % 3, 0), (6 * i, 'cc', 0, 7, i % 5)]] +
                   mono([(60, 6, 0)] * n), key=lambda e: (e[0], PRIO.get(e[1], 1))))
    add(24, sorted([(6 * i, 'cc', 0, 65, 127 * (i % 2)) for i in range(n)] + mono([(60 + i % 5, 6, 0) for i in range(n)]),
                   key=lambda e: (e[0], PRIO.get(e[1], 1))))
    p = [(60, 6, 0), (62, 6, 0), (64, 6, 0), (65, 6, 0)]     # a bar repeated more often than a byte can count
    for k in (254, 255, 256, 260, 300, 520):
        add(24, mono(p + [(70, 6, 0)] + p + [(71, 6, 0)] + p * k + [(72, 6, 0)]))
    # channels that can share voices in many ways, and nine that cannot at all
    for free, turns in ((7, 1), (7, 20), (6, 30), (5, 60)):
        a = [(24 * (c + k * free), 'on', c, 60, 80) for c in range(free) for k in range(turns)]
        end = 24 * free * turns
        a += [(end, 'on', c, 60, 80) for c in range(free, free + 9)]
        add(24, sorted(a + [(t + 24, 'off', c, p, 0) for t, _, c, p, _ in a], key=lambda e: (e[0], PRIO.get(e[1], 1))))
    add(24, [(i // 8, 'on', i % 16, 30 + i % 60, 80) for i in range(n)])
    add(24, [(i, 'on', 0, 60, 80) for i in range(n)] + [(n, 'off', 0, 60, 0)])
    add(24, sorted([e for c in range(16) if c != 9 for i in range(n // 60)
                    for e in [(90 * i + 6 * c, 'on', c, 60, 80), (90 * i + 6 * c + 6, 'off', c, 60, 0)]],
                   key=lambda e: (e[0], PRIO.get(e[1], 1))))
    return out


# ------------------------------------------------------------------ portamento

def gen_porta(rng, nnotes=40):
    """Melodies with portamento: one to three channels, each from tick 0 on and with its own
    pitches; controllers, programs, volumes and tempos at, between and during the notes."""
    tpb = rng.choice([24, 48, 96, 480] + ([25, 50, 100, 250] if rng.random() < 0.3 else []))
    tick = -(-tpb // 24)
    nch = rng.choice([1, 1, 1, 2, 3])
    chans = rng.sample([c for c in range(16) if c != 9], nch)
    pit = Pitches(rng)
    per, horizon = {}, 0
    for c in chans:
        ps = pit.take(rng.randint(1, 5), 0.2)
        notes = line(rng, tpb, nnotes // nch + 1, ps, legato=rng.choice([0.6, 0.9, 1]), longp=rng.choice([0, 0.05, 0.2]),
                     start=0)
        ev = []
        on = rng.random() < 0.7
        if on:
            ev.append((0, 'cc', c, 65, rng.choice([64, 127])))
        if rng.random() < 0.8:
            ev.append((0, 'cc', c, rng.choice([5, 37]), rng.choice([0, 1, 6, 60, 127])))
        for k, (p, t, off, v) in enumerate(notes):
            for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
                at = rng.choice([t, t, rng.randint(t, off), min(off - 1, t + 1)])
                ev.append(rng.choice([
                    (at, 'cc', c, 65, rng.choice([0, 63, 64, 127])),
                    (at, 'cc', c, 37, rng.choice([0, 1, tick, rng.randint(0, 127)])),
                    (at, 'cc', c, 5, rng.choice([0, 0, 1, rng.randint(0, 127)])),
                    (at, 'pc', c, rng.randint(0, 127), 0),
                    (at, 'cc', c, 7, rng.randint(0, 127)),
                    (at, 'cc', c, 1, 5)]))
            nxt = notes[k + 1] if k + 1 < len(notes) else None
            ev.append((t, 'on', c, p, v))
            if not (nxt and nxt[0] == p and nxt[1] == off and rng.random() < 0.5):
                ev.append((off, rng.choice(['off', 'off0']), c, p, 0))
            horizon = max(horizon, off)
        per[c] = ev
    extra = sorted([(rng.randint(0, horizon), 'tempo', 0, rng.choice([500000, 400000]), 0)
                    for _ in range(rng.choice([0, 0, 2, 6]))], key=lambda e: e[0])
    return {'tpb': tpb, 'tracks': arrange(rng, tpb, per, extra, None, rng.choice([0, 0.05])), 'running': rng.random() < 0.3}


# ------------------------------------------------------------------ the same music, written differently

def streams(s):
    """The events of a song by channel, in the order they are performed; tempo changes with channel 0."""
    per = {}
    for t in s['tracks']:
        for e in t:
            if e[1] == 'end' or e[1] in ('text', 'sysex', 'sysex7'):
                continue
            per.setdefault(0 if e[1] == 'tempo' else e[2], []).append(e)
    for c in per:
        per[c].sort(key=lambda e: (e[0], PRIO.get(e[1], 1)))
    return per


def rewrite(rng, s, scale=1):
    """The same music in another MIDI file: other tracks, running status, note-offs of the other
    form, events that mean nothing, simultaneous events of several channels in another order, a later
    end of track, a finer time base."""
    per = streams(s)
    last = max([e[0] for t in s['tracks'] for e in t if e[1] in KIND_CHAN] + [0])
    # the settings of a channel may stand on another track than its notes
    apart = rng.choice([0, 0, 0.5, 1])
    for c in sorted(per):
        if c < 16 and rng.random() < apart:
            sets = [e for e in per[c] if e[1] in ('pc', 'cc', 'tempo')]
            rest = [e for e in per[c] if e[1] not in ('pc', 'cc', 'tempo')]
            if sets and rest:
                per[c], per[c + 100] = rest, sets
    groups = []
    for chans in [c for c in per if c < 16], [c for c in per if c > 16]:
        rng.shuffle(chans)
        g = [[] for _ in range(rng.randint(min(1, len(chans)), len(chans)))]
        for c in chans:
            rng.choice(g).append(c)
        groups += g
    rng.shuffle(groups)
    if rng.random() < 0.5:
        groups = [g for g in groups if g]
    off0, junk = rng.choice([0, 0.5, 1]), rng.choice([0, 0.1, 1])
    tracks = []
    for g in groups:
        ev = []
        for c in g:
            ev.append([(e[0], 'off0' if rng.random() < off0 else 'off', e[2], e[3], rng.randint(0, 127))
                       if e[1] in ('off', 'off0') else e for e in per[c]])
            if junk:
                x = []
                for _ in range(int(len(per[c]) * junk) + 1):
                    t = rng.choice([0, last, rng.randint(0, last), rng.choice(per[c])[0]])
                    x.append(rng.choice([
                        (t, 'text', 0, rng.choice([1, 2, 3, 4, 5, 6, 7, 0x7f]), rng.choice([0, 1, 9, 130])),
                        (t, 'text', 0, 0x58, 4), (t, 'text', 0, 0x59, 2),
                        (t, 'sysex', 0, 0, rng.randint(1, 5)),
                        (min(t, last), 'bend', c % 100, 0, 64), (min(t, last), 'chanp', c % 100, 10, 0),
                        (min(t, last), 'polyat', c % 100, 60, 10),
                        (min(t, last), 'cc', c % 100, rng.choice(OTHER_CC),
                         rng.randint(0, 127))]))
                # a channel event counts for the length of the song: none where there was none
                ev.append(sorted([e for e in x if last or e[1] in ('text', 'sysex')], key=lambda e: e[0]))
        # merge, keeping the order of each list
        out = []
        pos = [0] * len(ev)
        while any(p < len(l) for p, l in zip(pos, ev)):
            t = min(l[p][0] for p, l in zip(pos, ev) if p < len(l))
            now = []
            for i, l in enumerate(ev):
                k = pos[i]
                while k < len(l) and l[k][0] == t:
                    k += 1
                here = l[pos[i]:k]
                pos[i] = k
                now.append(here)
            tick = len(out)
            while any(now):
                out.append(rng.choice([h for h in now if h]).pop(0))
            if any(c > 16 for c in per):    # settings of another track come after the ends of notes
                out[tick:] = sorted(out[tick:], key=lambda e: PRIO.get(e[1], 1))
        if rng.random() < 0.3:
            out.append(((out[-1][0] if out else 0) + rng.choice([1, s['tpb'], 40 * s['tpb']]), 'end', 0, 0, 0))
        tracks.append([(e[0] * scale,) + e[1:] for e in out])
    return {'tpb': s['tpb'] * scale, 'tracks': tracks, 'running': rng.random() < 0.5}


KIND_CHAN = ('on', 'off', 'off0', 'pc', 'cc', 'bend', 'chanp', 'polyat')
