"""What the demonstrations of planted bugs share: MIDI files, ROMs, the tool, and a small
player for the songs in a ROM. Copied into every demonstration's folder."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SLOTS = [
    ['Title', 'World Map', 'Beginning', 'Rabbit', 'Forest', 'Intro', 'Town', 'Warp', 'Dark World',
     'Master Sword', 'File Select', 'Soldier', 'Mountain', 'Shop', 'Fanfare'],
    ['Castle', 'Palace', 'Cave', 'Clear', 'Church', 'Boss', 'Dungeon', 'Psychic', 'Secret Way',
     'Rescue', 'Crystal', 'Fountain', 'Pyramid', 'Kill Agahnim', 'Ganon Room', 'Last Boss'],
    ['Triforce', 'Ending', 'Staff']]
BANKS = ['overworld', 'indoor', 'ending']
BASES = [0x914, 0x926, 0x932]
TOOL = os.path.join(os.environ.get('CARGO_TARGET_DIR', os.path.join(os.getcwd(), 'target')), 'debug', 'midi2spc')
DIR = tempfile.mkdtemp(prefix='demo-')


def path(name):
    p = os.path.join(DIR, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


def done(ok, what):
    shutil.rmtree(DIR, ignore_errors=True)
    print(('ok: ' if ok else 'BROKEN: ') + what)
    sys.exit(0 if ok else 1)


def run(*args, timeout=100, cwd=None):
    try:
        p = subprocess.run([TOOL] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 'hang', b'', b''


def vlq(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.insert(0, (n & 0x7f) | 0x80)
        n >>= 7
    return bytes(out)


def smf(name, tracks, tpb=24):
    """tracks: lists of (tick, bytes of the event) in order; returns the path of the file."""
    out = b'MThd' + (6).to_bytes(4, 'big') + b'\0\1' + len(tracks).to_bytes(2, 'big') + tpb.to_bytes(2, 'big')
    for t in tracks:
        d, last = b'', 0
        for tick, ev in t:
            d += vlq(tick - last) + ev
            last = tick
        d += b'\0\xff\x2f\0'
        out += b'MTrk' + len(d).to_bytes(4, 'big') + d
    p = path(name)
    with open(p, 'wb') as f:
        f.write(out)
    return p


def on(c, p, v=100):
    return bytes([0x90 | c, p, v])


def off(c, p, v=64):
    return bytes([0x80 | c, p, v])


def cc(c, k, v):
    return bytes([0xb0 | c, k, v])


def pc(c, p):
    return bytes([0xc0 | c, p])


def tempo(us):
    return b'\xff\x51\x03' + us.to_bytes(3, 'big')


def melody(c, notes, length=12, at=0):
    """Notes one after the other."""
    out = []
    for i, p in enumerate(notes):
        out += [(at + i * length, on(c, p)), (at + (i + 1) * length, off(c, p))]
    return out


# ------------------------------------------------------------------ ROMs

def pcaddr(a):
    return (a & 0x7fff) + ((a // 2) & 0xff8000)


def snes(p):
    return ((p >> 15) << 16) | 0x8000 | (p & 0x7fff)


class Rom:
    def __init__(self, name='rom.smc', mains=(0x2ff0,) * 3, overs=(0xb000,) * 3, pre=(), post=(), fill=0xff,
                 end=0x0800):
        """pre, post: (length, address) of chunks before and after the song areas of each bank."""
        self.path = path(name)
        self.mains, self.overs = mains, overs
        at, self.main, self.over, starts, blocks = 0x1000, [], [], [], []
        for b in range(3):
            starts.append(at)
            for n, a in list(pre) + [(mains[b], 0xd000), (overs[b], 0x1800)] + list(post) + [(0, end)]:
                blocks.append((at, n, a))
                at += 4 + n
            self.main.append(blocks[-3 - len(post)][0] + 4)
            self.over.append(blocks[-2 - len(post)][0] + 4)
        img = bytearray([fill]) * ((at + 0x8000) // 0x8000 * 0x8000)
        for p, n, a in blocks:
            img[p:p + 4] = n.to_bytes(2, 'little') + a.to_bytes(2, 'little')
        for b in range(3):
            s = snes(starts[b])
            img[pcaddr(BASES[b])], img[pcaddr(BASES[b] + 4)], img[pcaddr(BASES[b] + 8)] = s & 255, s >> 8 & 255, s >> 16
        self.original = bytes(img)
        self.write(self.original)

    def write(self, data):
        with open(self.path, 'wb') as f:
            f.write(data)

    def read(self):
        with open(self.path, 'rb') as f:
            return f.read()

    def byte(self, img, bank, a):
        if 0xd000 <= a < 0xd000 + self.mains[bank]:
            return img[self.main[bank] + a - 0xd000]
        if 0x1800 <= a < 0x1800 + self.overs[bank]:
            return img[self.over[bank] + a - 0x1800]
        raise IndexError('address %x outside the song areas of bank %d' % (a, bank))

    def word(self, img, bank, a):
        return self.byte(img, bank, a) | self.byte(img, bank, a + 1) << 8

    def header(self, bank, slot):
        return self.word(self.read(), bank, 0xd000 + 2 * ([0, 15, 31][bank] + slot))

    def play(self, bank, slot):
        """The voices of a song: lists of events (tick, what, ...) and their total lengths."""
        img = self.read()
        part = self.word(img, bank, self.header(bank, slot))
        voices = []
        for v in range(8):
            a = self.word(img, bank, part + 2 * v)
            if a:
                voices.append(self.voice(img, bank, a))
        return voices

    LEN = dict(zip(range(0xe0, 0x100), [1, 1, 2, 3, 0, 1, 2, 1, 2, 1, 1, 3, 0, 1, 2, 3, 1, 3, 3, 0, 1, 3, 0, 3, 3, 3, 1]))

    def voice(self, img, bank, a):
        t, dur, vs, ret, out = 0, 0, 0x7d, None, []
        for _ in range(200000):
            c = self.byte(img, bank, a)
            a += 1
            if c == 0:
                if ret is None:
                    return {'events': out, 'end': t}
                back, start, n = ret
                if n > 1:
                    a, ret = start, (back, start, n - 1)
                else:
                    a, ret = back, None
                continue
            if c < 0x80:
                dur = c
                c = self.byte(img, bank, a)
                a += 1
                if c < 0x80:
                    vs = c
                    c = self.byte(img, bank, a)
                    a += 1
            if c >= 0xe0:
                p = [self.byte(img, bank, a + i) for i in range(self.LEN[c])]
                a += len(p)
                if c == 0xef:
                    if ret is not None:
                        raise ValueError('loop inside a loop')
                    start = p[0] | p[1] << 8
                    a, ret = start, (a, start, p[2])
                else:
                    out.append((t, c) + tuple(p))
                continue
            if c == 0xc9:
                out.append((t, 'rest', dur))
            elif c == 0xc8:
                out.append((t, 'tie', dur, vs))
            else:
                out.append((t, 'note', c - 0x68, dur, vs))
            t += dur
        raise ValueError('voice never ends')


def manifest(entry, **special):
    """Manifest with the same entry in every slot but those given by name (_ for a blank)."""
    m = {}
    for b, names in zip(BANKS, SLOTS):
        m[b] = {n: special.get(n.replace(' ', '_'), entry) for n in names}
    p = path('manifest.json')
    with open(p, 'w') as f:
        json.dump(m, f)
    return p


def song(name, tracks, parts=None):
    """A song in JSON: tracks are lists of (duration, velocity, sustain, command)."""
    j = {'parts': [{'tracks': parts or list(range(len(tracks)))}],
         'tracks': [{'commands': [{'duration': d, 'velocity': v, 'sustain': s, 'command': c} for d, v, s, c in t]}
                    for t in tracks]}
    p = path(name)
    with open(p, 'w') as f:
        json.dump(j, f)
    return p


def notes(voices):
    """All notes (start, pitch) of a song."""
    return sorted((e[0], e[2]) for v in voices for e in v['events'] if e[1] == 'note')


def timeline(voices, instrument=True):
    """Every note with the instrument and volume it sounds with: (start, pitch, velocity, instrument, volume)."""
    out = []
    for v in voices:
        ins, vol = None, None
        for e in v['events']:
            if e[1] == 0xe0:
                ins = e[2]
            elif e[1] == 0xed:
                vol = e[2]
            elif e[1] == 'note':
                out.append((e[0], e[2], e[4] & 15, ins, vol))
    return sorted(out, key=str)
