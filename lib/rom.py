"""ROM images with the three song banks at arbitrary places."""
import json
import os

SLOTS = [
    ['Title', 'World Map', 'Beginning', 'Rabbit', 'Forest', 'Intro', 'Town', 'Warp', 'Dark World',
     'Master Sword', 'File Select', 'Soldier', 'Mountain', 'Shop', 'Fanfare'],
    ['Castle', 'Palace', 'Cave', 'Clear', 'Church', 'Boss', 'Dungeon', 'Psychic', 'Secret Way',
     'Rescue', 'Crystal', 'Fountain', 'Pyramid', 'Kill Agahnim', 'Ganon Room', 'Last Boss'],
    ['Triforce', 'Ending', 'Staff']]
BANKS = ['overworld', 'indoor', 'ending']
FIRST = [0, 15, 31]
ALL = [(b, i, SLOTS[b][i]) for b in range(3) for i in range(len(SLOTS[b]))]   # slot n = index here
FIRST_SONG = [0x36, 0x46, 0x46]
DEFAULT_BASES = [0x914, 0x926, 0x932]
MAIN = 0xD000


def pc(a):
    return (a & 0x7fff) + ((a // 2) & 0xff8000)


def snes(p):
    return ((p >> 15) << 16) | 0x8000 | (p & 0x7fff)


class Layout:
    """Where things are in a ROM: used to make it, never to judge it."""

    def __init__(self, size, bases, banks):
        self.size, self.bases, self.banks = size, bases, banks

    def args(self):
        if self.bases == DEFAULT_BASES:
            return []
        return ['--bank_addrs', ','.join('%x' % b for b in self.bases)]


def make(rng, mains, overs, ovbase=None, bases=None, fill=None, area_fill=None, pre=None, post=None,
         pad=None, shuffle=False):
    """mains/overs: lengths of the two song areas per bank. Returns (bytearray, Layout).
    fill: None for random filler. pre/post: number of other chunks before/after."""
    bases = bases or DEFAULT_BASES
    ovbase = ovbase or [0x2b00] * 3
    out = None
    order = [0, 1, 2]
    if shuffle:
        rng.shuffle(order)
    at = 0x1000 + (rng.randrange(0, 0x400) if pad is None else pad)
    used = {pc(b + o) for b in bases for o in (0, 4, 8)}
    if used:
        at = max(at, 0)
    plan = [None] * 3
    for b in order:
        chunks = []
        for _ in range(rng.randint(0, 2) if pre is None else pre):
            # mostly small, sometimes longer than half the sound RAM
            n = rng.randint(1, 300) if rng.random() < 0.97 else rng.randint(0x7f00, 0xefff)
            chunks.append([n, rng.choice([0x0800, 0x3000, 0x4000, 0xCF00, 0xD001, 0x00D0])])
        main_idx = len(chunks)
        chunks.append([mains[b], MAIN])
        if overs[b]:                       # else the bank ends with its main chunk
            chunks.append([overs[b], ovbase[b]])
        for _ in range((rng.randint(0, 2) if post is None else post) if overs[b] else 0):
            chunks.append([rng.randint(1, 300), rng.choice([0x0800, 0x3000, 0x4000, 0xD800])])
        start = at
        for c in chunks:
            c.append(at + 4)
            at += 4 + c[0]
        plan[b] = {'start': start, 'chunks': chunks, 'main': main_idx, 'end': at}
        at += 4 + (rng.randrange(0, 200) if pad is None else pad)
    size = (at + 0x40 + 0x3ff) // 0x400 * 0x400
    top = max(used) + 1
    size = max(size, (top + 0x3ff) // 0x400 * 0x400)
    out = bytearray(rng.randbytes(size) if fill is None else bytes([fill]) * size)
    for b in range(3):
        p = plan[b]
        a = snes(p['start'])
        out[pc(bases[b])] = a & 0xff
        out[pc(bases[b] + 4)] = (a >> 8) & 0xff
        out[pc(bases[b] + 8)] = a >> 16
        q = p['start']
        for n, ar, data in p['chunks']:
            out[q:q + 4] = bytes([n & 0xff, n >> 8, ar & 0xff, ar >> 8])
            q += 4 + n
        out[q:q + 2] = b'\0\0'
        if fill is None:                    # the entry address may be any
            x = rng.choice([0x0800, MAIN, MAIN, rng.randrange(0x10000)])
            out[q + 2:q + 4] = bytes([x & 0xff, x >> 8])
        if area_fill is not None:
            for k in range(p['main'], min(p['main'] + 2, len(p['chunks']))):
                n, ar, data = p['chunks'][k]
                out[data:data + n] = bytes([area_fill]) * n
    banks = []
    for b in range(3):
        p = plan[b]
        m, o = (p['chunks'] + [[0, 0, p['end'] + 4]])[p['main']:p['main'] + 2]
        banks.append({'start': p['start'], 'end': p['end'] + 2, 'main': m[2], 'main_len': m[0],
                      'over': o[2], 'over_len': o[0], 'over_aram': o[1], 'chunks': p['chunks']})
    return out, Layout(size, bases, banks)


def roomy(rng, **kw):
    """A ROM with nearly all of the sound RAM as song space; song areas filled with FF."""
    return make(rng, [0x2ff0] * 3, [0xB000] * 3, ovbase=[0x1800] * 3, area_fill=0xff, **kw)


def memory(rom, layout, bank, trim=None):
    """The song areas of a bank as the sound driver sees them. trim: fill byte of the areas;
    what follows the last byte that differs from it is left out."""
    b = layout.banks[bank]
    m = bytes(rom[b['main']:b['main'] + b['main_len']])
    o = bytes(rom[b['over']:b['over'] + b['over_len']])
    if trim is not None:
        m = m.rstrip(bytes([trim])) or m[:1]
        o = o.rstrip(bytes([trim])) or o[:1]
    return {'mb': MAIN, 'm': list(m), 'ob': b['over_aram'], 'o': list(o)}


def manifest(entries):
    """entries: list of 34 dicts (input, tempoAdjust?, loop?) in slot order."""
    m = {}
    for (b, i, name), e in zip(ALL, entries):
        m.setdefault(BANKS[b], {})[name] = e
    return m


def write_manifest(path, entries):
    with open(path, 'w') as f:
        json.dump(manifest(entries), f)


def windows(image, layout, every=0):
    """The parts of a ROM file the model reads: pointers and banks."""
    out = []
    for b in layout.bases:
        out.append({'at': pc(b), 'd': list(image[pc(b):pc(b) + 9])})
    for k in layout.banks:
        out.append({'at': k['start'], 'd': list(image[k['start']:k['end'] + 2])})
    return out


def outside(before, after, layout):
    """Offsets outside the windows at which two files differ (at most 20)."""
    cover = bytearray(max(len(before), len(after)))
    for w in windows(before, layout):
        cover[w['at']:w['at'] + len(w['d'])] = b'\1' * len(w['d'])
    out = []
    n = min(len(before), len(after))
    for k in range(0, n, 4096):
        if before[k:k + 4096] == after[k:k + 4096]:
            continue
        for i in range(k, min(k + 4096, n)):
            if before[i] != after[i] and not cover[i]:
                out.append(i)
                if len(out) == 20:
                    return out
    return out
