"""Generated MIDI files (known structure, mostly unknown data bytes) and the tracks they stand for."""
from fractions import Fraction
from oblig import *

DIVS = (96, 96, 480, 1, 2, 3, 5, 7, 10, 24, 48, 60, 64, 100, 120, 127, 128, 192, 200, 240, 255, 256, 257, 384, 500, 512, 768, 960, 1000, 1024, 1920, 2048,
        3840, 4095, 4096, 4097, 8192, 9600, 10000, 15360, 16383, 16384, 32766, 32767)
W = {   # weights of the event kinds
    'c16': dict(on=4, off=4, on0=1, skip=4, skiprun=2, meta=2, sysex=2, system=2, prefix=1, tsig=1),
    'c17': dict(on=9, off=8, on0=3, skip=2, skiprun=1, meta=2, sysex=1, system=1, prefix=1, tsig=1),
    'c18': dict(on=8, off=8, on0=2, skip=2, skiprun=1, meta=2, sysex=1, system=1, prefix=8, tsig=8),
}
SYSTEM = {0xF1: 1, 0xF2: 2, 0xF3: 1, 0xF6: 0, 0xF8: 0, 0xF9: 0, 0xFA: 0, 0xFB: 0, 0xFC: 0, 0xFE: 0}


def vlq(n, pad=0):
    out = [n & 127]
    n >>= 7
    while n:
        out.append(n & 127 | 128)
        n >>= 7
    return bytes([128] * pad + out[::-1])


def a_file(rnd, weights, size):
    """-> spec: dict(tpq, events, tail, chunks)"""
    kinds = [k for k, w in W[weights].items() for _ in range(w)]
    chans = rnd.sample(range(16), rnd.choice((1, 1, 2, 3, 5)))
    if rnd.random() < 0.4 and 0 not in chans:
        chans[0] = 0
    keys = rnd.choice(((60, 62), (0, 127, 64), (60,), (1, 2, 3, 4), (30, 31, 100)))
    pchans = chans + [rnd.randrange(16), 0, rnd.choice((16, 32, 64, 128)) + chans[0]]
    evs = []
    if rnd.random() < (0.5 if weights == 'c18' else 0.2):
        evs.append((0, 0, 'tsig', rnd.randrange(1, 20), rnd.randrange(0, 6)))
    scale = rnd.choice((12, 12, 96, 500, 20000, 3 * 10 ** 6))
    running = {}
    for _ in range(size):
        k = rnd.choice(kinds)
        dt = rnd.choice((0, 0, 1, rnd.randrange(0, scale), rnd.randrange(0, scale), 127, 128)) if rnd.random() < 0.8 else 0
        if evs and evs[-1][2] in ('sysex', 'meta', 'system') and rnd.random() < 0.3:
            # a delta time whose first byte looks like a status byte
            dt = rnd.choice((0x77, 0x77, 0x70, 0x7F, 0x10, 0x00)) << rnd.choice((7, 7, 14)) | rnd.randrange(128)
        pad = rnd.choice((0,) * 8 + (1, 2))
        if k in ('on', 'off', 'on0'):
            ch, key = rnd.choice(chans), rnd.choice(keys)
            evs.append((dt, pad, k, ch, key, rnd.choice((None, None, 1, 127, 64, rnd.randrange(1, 128)))))
        elif k in ('skip', 'skiprun'):
            st = rnd.choice((0xA0, 0xB0, 0xC0, 0xD0, 0xE0)) | rnd.choice(chans + [rnd.randrange(16)])
            evs.append((dt, pad, 'skip', st))
            if k == 'skiprun':
                evs.append((rnd.randrange(0, 5), 0, 'skip', st))
        elif k == 'system':
            evs.append((dt, pad, 'system', rnd.choice(sorted(SYSTEM))))
        elif k == 'sysex':
            evs.append((dt, pad, 'sysex', rnd.choice((0, 1, 2, 5, 20, 127, 128, 200)), rnd.choice((0, 0, 0, 1))))
        elif k == 'meta':
            evs.append((dt, pad, 'meta', rnd.choice([x for x in range(128) if x not in (0x2F, 0x20, 0x58)] + [1, 3, 0x51, 0x59, 0x7F, 0x21, 0x54]), rnd.choice((0, 1, 2, 3, 4, 8, 30, 129)), rnd.choice((0, 0, 0, 1))))
        elif k == 'prefix':
            evs.append((dt, pad, 'prefix', rnd.choice(pchans)))
            if rnd.random() < 0.6:
                evs.append((0, 0, 'tsig', rnd.randrange(1, 256), rnd.randrange(0, 8)))
        elif k == 'tsig':
            evs.append((dt, pad, 'tsig', rnd.choice((rnd.randrange(1, 16), rnd.randrange(0, 256))), rnd.choice((0, 1, 2, 2, 3, 4, 5, 6, 9))))
    return dict(tpq=rnd.choice(DIVS + (rnd.randrange(1, 32768),) * 8), events=evs, run=rnd.choice((0.0, 0.5, 1.0)), rseed=rnd.random(), eot=rnd.choice((0, 0, 5, 300)),
                tail=rnd.choice((0, 0, 0, 1, 5)), before=rnd.choice((-1,) * 5 + (0, 3)), between=rnd.choice((-1,) * 5 + (0, 4)), after=rnd.choice((-1,) * 5 + (0, 7)), header=rnd.choice((6, 6, 6, 6, 7, 10)))


def render(spec, B, b):
    """-> (parts of the file, track body parts, {channel: [(time, kind, key, velocity)]}, {channel or None: (nn, dd)})"""
    import random
    rnd = random.Random(spec['rseed'])
    body, per, sigs, cur, t, status = [], {}, {}, None, 0, None
    for e in spec['events']:
        dt, pad, k = e[:3]
        t += dt
        body.append(vlq(dt, pad))
        if k in ('on', 'off', 'on0'):
            ch, key, v = e[3:]
            if v is None:
                v = B(126, 1)
            st = (0x80 if k == 'off' else 0x90) | ch
            if not (st == status and rnd.random() < spec['run']):
                body.append(bytes([st]))
            status = st
            if k == 'on0':
                v = 0
            elif k == 'off' and rnd.random() < 0.2:
                v = 0
            body += b(key, v)
            per.setdefault(ch, []).append((t, 'on' if k == 'on' else 'off', key, v))
        elif k == 'skip':
            st = e[3]
            if not (st == status and rnd.random() < spec['run']):
                body.append(bytes([st]))
            status = st
            body += b(*[B(127) for _ in range(1 if st >> 4 in (0xC, 0xD) else 2)])
        elif k == 'system':
            body += [bytes([e[3]])] + b(*[B(127) for _ in range(SYSTEM[e[3]])])
            status = None
        elif k == 'sysex':
            body += [b'\xf0' + vlq(e[3], e[4])] + data(e[3], rnd, B, b)
            status = None
        elif k == 'meta':
            body += [bytes([0xFF, e[3]]) + vlq(e[4], e[5])] + data(e[4], rnd, B, b)
            status = None
        elif k == 'prefix':
            body += [bytes([0xFF, 0x20, 1, e[3]])]
            cur, status = e[3], None
        elif k == 'tsig':
            body += [bytes([0xFF, 0x58, 4, e[3], e[4]])] + b(B(255), B(255))
            sigs[cur], status = (e[3], e[4]), None
    body += [vlq(spec['eot']) + b'\xff\x2f\x00']
    return body, per, sigs


def data(n, rnd, B, b):
    """data bytes of an event: some unknown, the others any"""
    if n <= 4:
        return b(*[B(255) for _ in range(n)])
    return b(B(255)) + [bytes(rnd.randrange(256) for _ in range(n - 2))] + b(B(255))


def notes(evs):
    """[(start, end, key, velocity)] of one channel"""
    run, out = {}, []
    for t, k, key, v in evs:
        if k == 'on':
            run.setdefault(key, (t, v))
        elif key in run:
            t0, v0 = run.pop(key)
            out.append((t0, t, key, v0))
    return out


def text(spec):
    out = []
    for e in spec['events']:
        k = e[2]
        a = {'on': lambda: f'ch{e[3]} key {e[4]}', 'off': lambda: f'ch{e[3]} key {e[4]}', 'on0': lambda: f'ch{e[3]} key {e[4]}', 'skip': lambda: f'{e[3]:#x}', 'system': lambda: f'{e[3]:#x}',
             'sysex': lambda: f'{e[3]} bytes', 'meta': lambda: f'{e[3]:#x} {e[4]} bytes', 'prefix': lambda: f'channel {e[3]}', 'tsig': lambda: f'{e[3]}/{2 ** e[4]}'}[k]()
        out.append(f'+{e[0]} {k} {a}')
    x = {k: spec[k] for k in ('tpq', 'eot', 'tail', 'before', 'between', 'after', 'header')}
    return f'{x}: ' + '; '.join(out)


class Bad(Exception):
    pass


def reference(data):
    """what a file of these bytes is by the MIDI format and the properties:
    ('parse', why) | ('unsure', why) | ('tracks', ticks per quarter, {channel: events}, {channel or None: (nn, dd)})"""
    unsure = []
    try:
        chunks, i = [], 0
        while i < len(data):
            if len(data) - i < 8:
                raise Bad('incomplete chunk header')
            n = int.from_bytes(data[i + 4:i + 8], 'big')
            if i + 8 + n > len(data):
                raise Bad('incomplete chunk')
            chunks.append((data[i:i + 4], data[i + 8:i + 8 + n]))
            i += 8 + n
        tpq, found = None, None
        for name, body in chunks:
            if name == b'MThd':
                if tpq is not None:
                    unsure.append('two headers')
                if len(body) < 6:
                    raise Bad('short header')
                if body[:2] != b'\0\0' or body[2:4] != b'\0\1':
                    raise Bad('format or number of tracks')
                tpq = int.from_bytes(body[4:6], 'big')
                if not 1 <= tpq <= 32767:
                    raise Bad('division')
            elif name == b'MTrk':
                if tpq is None:
                    raise Bad('track before header')
                if found is not None:
                    unsure.append('two tracks')
                found = events(body, unsure)
        if tpq is None or found is None:
            raise Bad('header or track missing')
    except Bad as e:
        return ('unsure', unsure[0]) if unsure else ('parse', str(e))
    if unsure:
        return ('unsure', unsure[0])
    return ('tracks', tpq, *found)


def events(d, unsure):
    i, t, prev, per, sigs, cur = 0, 0, None, {}, {}, None

    def take(n):
        nonlocal i
        if i + n > len(d):
            raise Bad('track ends')
        i += n
        return d[i - n:i]

    def var():
        r = n = 0
        while True:
            x = take(1)[0]
            r, n = r << 7 | x & 127, n + 1
            if x < 128:
                return r
    while True:
        t += var()
        s = take(1)[0]
        if s < 128:
            if prev is None:
                raise Bad('running status')
            if prev >= 0xF0:
                unsure.append('running status after another event')
                raise Bad('')
            s, i = prev, i - 1
        prev = s
        if s == 0xFF:
            k = take(1)[0]
            n = var()
            x = take(n)
            if k >= 128:
                unsure.append('type of meta event')
            if {0x2F: 0, 0x20: 1, 0x58: 4}.get(k, n) != n:
                raise Bad('length of a meta event')
            if k == 0x2F:
                return per, sigs
            if k == 0x20:
                cur = x[0]
            if k == 0x58:
                sigs[cur] = (x[0], x[1])
        elif s == 0xF0:
            take(var())
        elif s >= 0xF0:
            if s not in SYSTEM:
                raise Bad('unknown event')
            if any(x > 127 for x in take(SYSTEM[s])):
                unsure.append('data byte')
        else:
            x = take(1 if s >> 4 in (0xC, 0xD) else 2)
            if any(y > 127 for y in x):
                unsure.append('data byte')
            if s >> 4 in (8, 9):
                per.setdefault(s & 15, []).append((t, 'on' if s >> 4 == 9 and x[1] else 'off', x[0], x[1]))


def other(rnd, put):
    """a message that a reader has to skip"""
    dt = rnd.choice((0, 0, 1, 200))
    r = rnd.random()
    if r < 0.55:
        k = rnd.choice((0xA, 0xB, 0xC, 0xC, 0xD, 0xE))
        put(dt, k << 4 | rnd.choice((9, rnd.randrange(16))), *(rnd.randrange(128) for _ in range(1 if k in (0xC, 0xD) else 2)))
    elif r < 0.7:
        n = rnd.choice((0, 1, 5, 130))
        put(dt, 0xF0, *vlq(n), *(rnd.randrange(128) for _ in range(n)))
    elif r < 0.8:
        s = rnd.choice(sorted(SYSTEM))
        put(dt, s, *(rnd.randrange(128) for _ in range(SYSTEM[s])))
    else:
        n = rnd.choice((0, 1, 3, 4, 5, 128, 200))
        k = rnd.choice([x for x in (*range(16), 0x21, 0x51, 0x54, 0x59, 0x60, 0x7F)])
        put(dt, 0xFF, k, *vlq(n), *(rnd.randrange(256) for _ in range(n)))


def crowd(rnd, channels, keys, changes):
    """a concrete file: many channels with their own signatures, many notes sounding at once, and many events"""
    out = bytearray()

    def put(dt, *bs):
        out.extend(vlq(dt) + bytes(bs))
    chans = rnd.sample(range(16), channels)
    for ch in chans:
        if rnd.random() < 0.9:
            put(rnd.choice((0, 0, 3)), 0xFF, 0x20, 1, ch)
            put(0, 0xFF, 0x58, 4, rnd.randrange(1, 20), rnd.randrange(0, 6), 24, 8)
    ons = [(ch, k) for ch in chans for k in rnd.sample(range(128), keys)]
    rnd.shuffle(ons)
    for ch, k in ons:
        put(rnd.choice((0, 0, 1, 2)), 0x90 | ch, k, rnd.randrange(1, 128))
    for _ in range(changes):
        ch, k = rnd.choice(ons)
        if rnd.random() < 0.4:
            other(rnd, put)
        if rnd.random() < 0.5:
            put(1, 0x80 | ch, k, 0)
        else:
            put(1, 0x90 | ch, k, rnd.randrange(0, 128))
    rnd.shuffle(ons)
    for ch, k in ons[:-1]:
        put(rnd.choice((0, 1, 5)), 0x80 | ch, k, rnd.randrange(128))
    put(0, 0xFF, 0x2F, 0)
    return b'MThd' + (6).to_bytes(4, 'big') + b'\0\0\0\1' + rnd.choice((1, 96, 480, 1000)).to_bytes(2, 'big') + b'MTrk' + len(out).to_bytes(4, 'big') + bytes(out)
