"""MIDI reader."""
from props import prop
from props_core import EXC_V, v_of
from props_midi import *
from oblig import *
from poly import sym
import gen_midi

PARSE = ('exc', ('MIDIParsingError',))


def reader(c, st, y, ch=None, kind='loads', **kw):
    """outcomes of MIDIReader(**kw).loads(y[, channel])"""
    Rd = c.mod('melodia.io.midi', 'MIDIReader')
    st, r = c.one(st, Rd, [], kw)
    k = {} if ch is None else {'channel': N(as_poly(ch))}
    if kind == 'load':
        st, f = c.one(st, c.mod('_support', 'Source'), [y])
        return c.method(st, r, 'load', [f], k)
    return c.method(st, r, 'loads', [y], k)


def ticks(t, tpq):
    """value of a time in ticks"""
    from math import floor
    if as_poly(t).ival() is not None and as_poly(tpq).ival() is not None:
        return const(Fraction(floor(Fraction(as_poly(t).ival() * 4096, as_poly(tpq).ival())), 16384))
    q = as_poly(t) * 4096
    q = q * Fraction(1, tpq) if isinstance(tpq, int) else q * tpq.inv()
    return Poly.atom(Atom('floor', (q,))) * Fraction(1, 16384)


def vel(v):
    if isinstance(v, Poly) and v.ival() is not None:
        v = v.ival()
    if isinstance(v, int):
        return ('f', max(0.0, min(1.0, v / 127.0)))
    return ('f', Atom('fdiv', (Atom('ffromint', (v,), 'float'), Atom('fconst', (127.0,), 'float')), 'float'))


def rnote(t0, t1, p, v, tpq=96, mc=36):
    """a note read from the file: ticks of its events, pitch byte, velocity byte"""
    d = as_poly(t1) - as_poly(t0)
    return item(ticks(t0, tpq), ('note', ('tone', as_poly(p) - 60 + mc), ('sigv', ticks(d, tpq)), vel(v)))


def rtrack(notes, sg=SIG44):
    return ('track', sg, notes)


class Bytes:
    """bytes of a file: unknown, or (rnd) given"""
    def __init__(self, c, st=None, rnd=None):
        self.c, self.st, self.n, self.rnd = c, st or c.state(), 0, rnd

    def __call__(self, hi=127, lo=0, name=None):
        if self.rnd is not None:
            return const(self.rnd.choice((lo, hi, self.rnd.randrange(lo, hi + 1), self.rnd.randrange(lo, hi + 1))))
        self.n += 1
        self.st, p = self.c.int_(self.st, name or f'b{self.n}', lo, hi)
        return p


def b(*ps):
    return [('b', as_poly(p)) for p in ps]


def on_(ch, p, v):
    return [bytes([0x90 | ch])] + b(p, v)


def off_(ch, p, v=64):
    return [bytes([0x80 | ch])] + b(p, v)


def mfile(body, tpq=96):
    return file_of(as_poly(tpq), body)


def by_reference(data, ch=None):
    """what reading these very bytes must give, by the reference reader; None: nothing exact is known"""
    r = gen_midi.reference(data)
    if r[0] == 'unsure':
        return None
    if r[0] == 'parse':
        return PARSE
    _, tpq, per, sigs = r
    of = lambda x: sigs.get(x, sigs.get(None, (4, 2)))
    notes = {x: [rnote(*y, tpq) for y in gen_midi.notes(es)] for x, es in (per or {0: []}).items()}
    if ch is None:
        top = max(Fraction(x, 2 ** y) for x, y in map(of, notes))
        return ('track', ('sigv', const(top)), [x for ns in notes.values() for x in ns])
    if ch in notes:
        sg = of(ch)
        return ('track', ('sig', const(sg[0]), const(2 ** sg[1])), notes[ch])
    return EXC_V


def exactly(c, name, data, ch=None, kind='loads'):
    exp = by_reference(data, ch)
    if exp is None:
        exp = ANYTRACK if ch is None else ('either', [('anytrack',), PARSE, EXC_V])
    c.demand(name, reader(c, c.state(), K(data), ch, kind), [((), exp)], data.hex())


def damaged(rnd, data, n=1, lo=8):
    """the bytes with some changed, removed, repeated or inserted"""
    new = bytearray(data)
    for _ in range(n):
        j = rnd.randrange(min(lo, len(new) - 1), len(new))
        how = rnd.randrange(6)
        if how == 0:
            new[j] = rnd.choice((0, 1, 0x7f, 0x80, 0x90, 0xff, 0xf0, 0xf4, 0xfd, 0x20, 0x58, rnd.randrange(128), rnd.randrange(256)))
        elif how == 1:
            new[j] ^= 1 << rnd.randrange(8)
        elif how == 2:
            new[j:j] = new[j:j + rnd.randrange(1, 6)]
        elif how == 3 and len(new) > 4:
            del new[j:j + rnd.randrange(1, 4)]
        elif how == 4:
            k = rnd.randrange(len(new))
            new[j:j] = new[k:k + rnd.randrange(2, 9)]
        else:
            new[j:j] = bytes(rnd.randrange(256) for _ in range(rnd.choice((1, 2, 4))))
        if not new:
            break
    return bytes(new) or b'\0'


def resized(data, body):
    """the file with another track body"""
    at = data.index(b'MTrk') + 8
    n = int.from_bytes(data[at - 4:at], 'big')
    return data[:at - 4] + len(body).to_bytes(4, 'big') + bytes(body) + data[at + n:]


def track_body(data):
    at = data.index(b'MTrk') + 8
    return data[at:at + int.from_bytes(data[at - 4:at], 'big')]


def given_bytes(c, rnd, spec):
    """a generated file with every byte chosen"""
    B = Bytes(c)
    bd, per, sigs = gen_midi.render(spec, B, lambda *ps: b(*[p if as_poly(p).ival() is not None else rnd.randrange(1, 127) for p in ps]))
    parts = spec_parts(spec, B, bd)
    return b''.join(x if isinstance(x, bytes) else bytes([x[1].ival() if x[1].ival() is not None else rnd.randrange(256)]) for x in parts)


def changed(c, name, weights, n, salt):
    """generated files with some bytes changed, removed, repeated or inserted: what they are now"""
    import random

    def one(i):
        rnd = random.Random(f'{c.seed}.{salt}.{i}')
        data = given_bytes(c, rnd, gen_midi.a_file(rnd, weights, rnd.choice((2, 4, 6, 8, 12))))
        body = track_body(data)
        for _ in range(60):
            d = resized(data, damaged(rnd, body, rnd.choice((1, 1, 2, 3)), 0))
            if gen_midi.reference(d)[0] == 'tracks' and d != data:
                chs = sorted(gen_midi.reference(d)[2]) or [0]
                exactly(c, name, d, ch=rnd.choice([None, None] + chs), kind=rnd.choice(('load', 'loads')))
                break
    for i in range(n):
        c.guard(name, one, i)


def crowded(c, name, sizes):
    """files with many channels, many notes at once, many events"""
    import random

    def one(i, size):
        rnd = random.Random(f'{c.seed}.crowd.{size}')
        data = gen_midi.crowd(rnd, *size)
        c.I.maxloop = len(data)
        with c.budget(10 ** 8):
            exactly(c, name, data, kind=rnd.choice(('load', 'loads')))
        if i % 2 == 0:
            with c.budget(10 ** 8):
                exactly(c, name, data, ch=rnd.choice(sorted(gen_midi.reference(data)[2])))
    for i, s in enumerate(sizes):
        c.guard(name, one, i, s)


SKIP = {0xF1: 1, 0xF2: 2, 0xF3: 1, 0xF6: 0, 0xF8: 0, 0xF9: 0, 0xFA: 0, 0xFB: 0, 0xFC: 0, 0xFE: 0}
for _s in range(0xA0, 0xF0):
    SKIP[_s] = 1 if _s >> 4 in (0xC, 0xD) else 2


def spec_parts(spec, B, body):
    """the chunks of a generated file"""
    import random
    rnd = random.Random(spec['rseed'])
    junk = lambda n, name: [] if n < 0 else [rnd.choice((name, name, bytes(4), b'mtrk', b'MThD', b'Mtrk', b'RIFF', b'\xff\xff\xff\xff', b'MTrk'[::-1])), n.to_bytes(4, 'big')] + b(*[B(255) for _ in range(n)])
    h = spec['header']
    head = [b'MThd' + h.to_bytes(4, 'big') + b'\0\0\0\1' + spec['tpq'].to_bytes(2, 'big')] + b(*[B(255) for _ in range(h - 6)])
    n = ylen(body) + spec['tail']
    return junk(spec['before'], b'IGNR') + head + junk(spec['between'], b'xxxx') + [b'MTrk', n.to_bytes(4, 'big')] + body + b(*[B(255) for _ in range(spec['tail'])]) + junk(spec['after'], b'MTr0')


def generated(c, name, weights, n, salt):
    """read generated files: all channels, every channel present and an absent one"""
    import random

    def one(i, spec):
        rnd = random.Random(i)
        B = Bytes(c)
        body, per, sigs = gen_midi.render(spec, B, b)
        y = mkbytes(spec_parts(spec, B, body))
        tpq = spec['tpq']
        what = gen_midi.text(spec)
        if not per:
            per = {0: []}
        of = lambda ch: sigs.get(ch, sigs.get(None, (4, 2)))
        notes = {ch: [rnote(*x, tpq) for x in gen_midi.notes(es)] for ch, es in per.items()}
        top = max((Fraction(x, 2 ** y) for x, y in (of(ch) for ch in per)))
        kind = rnd.choice(('loads', 'loads', 'load'))
        c.demand(name, reader(c, B.st, y, kind=kind), [((), ('track', ('sigv', const(top)), [x for ns in notes.values() for x in ns]))], 'all channels, ' + what)
        chs = sorted(per)
        for ch in chs if len(chs) < 3 else rnd.sample(chs, 2):
            sg = of(ch)
            c.demand(name, reader(c, B.st, y, ch, kind), [((), ('track', ('sig', const(sg[0]), const(2 ** sg[1])), notes[ch]))], f'channel {ch}, ' + what)
        absent = rnd.choice([x for x in range(17) if x not in per])
        c.demand(name, reader(c, B.st, y, absent, kind), [((), EXC_V)], f'channel {absent} (absent), ' + what)
    for i in range(n):
        rnd = random.Random(f'{c.seed}.{salt}.{i}')
        c.guard(name, one, i, gen_midi.a_file(rnd, weights, rnd.choice((1, 2, 4, 6, 8, 12, 16) if c.tier == 'quick' or i % 5 else (20, 30, 40))))


@prop('C16', extra=SUPPORT)
def c16(c):
    c.I.loop_bound, c.I.small = 16, 2
    generated(c, 'generated files', 'c16', 150 if c.tier == 'quick' else 2500, 'c16')
    crowded(c, 'crowded files', ((3, 2, 30), (16, 1, 0)))
    changed(c, 'changed files', 'c16', 150 if c.tier == 'quick' else 2500, 'c16.changed')

    def delta(n, where):
        B = Bytes(c)
        ds = [B(127, 0, f'd{i}') for i in range(n)]
        val = const(0)
        for d in ds:
            val = val * 128 + d
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        dt = b(*[d + 128 for d in ds[:-1]]) + b(ds[-1])
        if where == 'on':
            body = dt + on_(0, p, v) + [b'\x60'] + off_(0, p, B(127)) + [END]
            exp = rnote(val, val + 96, p, v, 4096)
        elif where == 'off':
            body = [b'\0'] + on_(0, p, v) + dt + off_(0, p, B(127)) + [END]
            exp = rnote(0, val, p, v, 4096)
        else:
            ev = {'skipped': [b'\xb0'] + b(B(127), B(127)), 'text': [b'\xff\1\2'] + b(B(255), B(255)), 'prefix': [b'\xff\x20\1'] + b(B(15)),
                  'signature': [b'\xff\x58\4\4\2\x18\x08'], 'sysex': [b'\xf0\1'] + b(B(255)), 'clock': [b'\xf8'], 'tempo': [b'\xff\x51\3'] + b(B(255), B(255), B(255)), 'off': off_(0, p), 'silent': on_(0, p, 0)}[where.strip()]
            body = dt + ev + [b'\0'] + on_(0, p, v) + [b'\x60'] + off_(0, p) + [END]
            exp = rnote(val, val + 96, p, v, 4096)
        c.demand('delta times', reader(c, B.st, mfile(body, 4096)), [((), rtrack([exp]))], f'{n}-byte delta time before note {where}')
    for where in ('on', 'off', 'skipped', 'text', 'prefix', 'signature', 'sysex', 'clock', 'tempo', 'off ', 'silent'):
        for n in (1, 2, 3, 4, 5):
            c.guard('delta times', delta, n, where)

    def skipped(status, data, note):
        """an event that carries no note changes nothing but the time"""
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [b'\x08\x90'] + b(p, v) + [b'\x30', bytes([status])] + data(B) + [b'\x30\x80'] + b(p, B(127)) + [b'\x10'] + on_(0, p, v) + [b'\x20'] + off_(0, p) + [END]
        c.demand(note, reader(c, B.st, mfile(body)), [((), rtrack([rnote(8, 104, p, v), rnote(120, 152, p, v)]))], f'event {status:#x} between note events')
    for s, n in sorted(SKIP.items()):
        c.guard('skipped events', skipped, s, lambda B, n=n: b(*[B(127) for _ in range(n)]), 'skipped events')
    for n in (0, 1, 2, 5):
        c.guard('skipped system exclusive', skipped, 0xF0, lambda B, n=n: [bytes([n])] + b(*[B(255) for _ in range(n)]), 'skipped system exclusive')
    c.guard('skipped system exclusive', skipped, 0xF0, lambda B: [b'\x81\x02'] + [bytes(range(128, 256))] + b(B(255), B(255)), 'skipped system exclusive')
    metas = [k for k in range(128) if k not in (0x2F, 0x20, 0x58)]
    for i, k in enumerate(metas):
        if c.tier == 'quick' and i % 8 and k not in (0, 1, 3, 0x21, 0x51, 0x54, 0x59, 0x7f):
            continue
        n = (0, 1, 3, 4)[i % 4] if k != 0x51 else 3
        c.guard('skipped meta events', skipped, 0xFF, lambda B, n=n, k=k: [bytes([k, n])] + b(*[B(255) for _ in range(n)]), 'skipped meta events')
    c.guard('skipped meta events', skipped, 0xFF, lambda B: [b'\x01\x81\x48'] + [bytes(range(0, 200))], 'skipped meta events')
    c.guard('skipped meta events', skipped, 0xFF, lambda B: [b'\x7f\x80\x80\x03'] + b(B(255), B(255), B(255)), 'skipped meta events')

    def any_meta():
        B = Bytes(c)
        k = B(127, 0, 'kind')
        st = c.assume(B.st, Cond('ne0', k - 0x2f), Cond('ne0', k - 0x20), Cond('ne0', k - 0x58))
        B.st = st
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [b'\0\xff'] + b(k) + [b'\x02'] + b(B(255), B(255)) + [b'\x08'] + on_(3, p, v) + [b'\x20'] + off_(3, p) + [END]
        c.demand('skipped meta events', reader(c, B.st, mfile(body)), [((), rtrack([rnote(8, 40, p, v)]))], 'meta event of any kind')
    c.guard('skipped meta events', any_meta)

    def running(status, n, mid):
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        first = b(*[B(127) for _ in range(n)])
        second = b(*[B(127) for _ in range(n)])
        body = [b'\0', bytes([status])] + first + [b'\x05'] + second + [b'\x10'] + on_(1, p, v) + [b'\x40'] + off_(1, p) + [END]
        c.demand('running status', reader(c, B.st, mfile(body)), [((), rtrack([rnote(21, 85, p, v)]))], f'running status after {status:#x}')
    for s, n in ((0xB0, 2), (0xC3, 1), (0xD0, 1), (0xE1, 2), (0xA2, 2)):
        c.guard('running status', running, s, n, None)

    def running_notes(ch):
        B = Bytes(c)
        p, q, v, w = B(63, 0, 'p'), B(127, 64, 'q'), B(126, 1, 'v'), B(126, 1, 'w')
        body = [b'\0'] + on_(ch, p, v) + [b'\x18'] + b(q, w) + [b'\x18'] + b(p) + [b'\0\x30'] + off_(ch, q) + [END]
        c.demand('running status', reader(c, B.st, mfile(body)), [((), rtrack([rnote(0, 48, p, v), rnote(24, 96, q, w)]))], f'note on repeated by running status, channel {ch}')
        B = Bytes(c)
        p, q, v, w = B(63, 0, 'p'), B(127, 64, 'q'), B(126, 1, 'v'), B(126, 1, 'w')
        body = [b'\0'] + on_(ch, p, v) + [b'\x18'] + b(q, w) + [b'\x18'] + off_(ch, p, B(127)) + [b'\x30'] + b(q, B(127)) + [END]
        c.demand('running status', reader(c, B.st, mfile(body)), [((), rtrack([rnote(0, 48, p, v), rnote(24, 96, q, w)]))], f'note off repeated by running status, channel {ch}')
    for ch in (0, 9, 15):
        c.guard('running status', running_notes, ch)

    def chans(ch):
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [b'\x10'] + on_(ch, p, v) + [b'\x18'] + off_(ch, p, B(127)) + [END]
        exp = rtrack([rnote(16, 40, p, v)])
        c.demand('channel of the events', reader(c, B.st, mfile(body)), [((), exp)], f'events on channel {ch}')
        c.demand('channel of the events', reader(c, B.st, mfile(body), ch), [((), exp)], f'events on channel {ch}, selected')
        c.demand('channel of the events', reader(c, B.st, mfile(body), (ch + 1) % 16), [((), EXC_V)], f'events on channel {ch}, another selected')
    for ch in range(16):
        c.guard('channel of the events', chans, ch)

    def chunks():
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [b'\x10'] + on_(0, p, v) + [b'\x18'] + off_(0, p) + [END]
        tr = [b'MTrk', ylen(body).to_bytes(4, 'big')] + body
        exp = [((), rtrack([rnote(16, 40, p, v)]))]
        H = b'MThd\0\0\0\6\0\0\0\1\0\x60'
        junk = lambda n: [b'XFIH', n.to_bytes(4, 'big')] + b(*[B(255) for _ in range(n)])
        alts = [
            ('longer header', [b'MThd\0\0\0\x08\0\0\0\1\0\x60'] + b(B(255), B(255)) + tr),
            ('other chunk first', junk(3) + [H] + tr),
            ('other chunk between', [H] + junk(5) + tr),
            ('other chunk last', [H] + tr + junk(4)),
            ('empty other chunk', [H] + junk(0) + tr + junk(0)),
            ('chunk of 300 bytes', [H, b'abcd\0\0\1\x2c' + bytes(300)] + tr),
            ('bytes after the end of the track', [H, b'MTrk', (ylen(body) + 2).to_bytes(4, 'big')] + body + b(B(255), B(255))),
        ]
        for what, parts in alts:
            c.demand('chunks', reader(c, B.st, mkbytes(parts)), exp, what)
            c.demand('chunks', reader(c, B.st, mkbytes(parts), kind='load'), exp, what + ' (load)')
    c.guard('chunks', chunks)

    def longer(n):
        """a track chunk whose length needs more than one byte"""
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [b'\x10'] + on_(0, p, v) + [b'\0\xff\x7f' + vlc(n) + bytes(n)] + [b'\x18'] + off_(0, p) + [END]
        c.demand('chunks', reader(c, B.st, mfile(body)), [((), rtrack([rnote(16, 40, p, v)]))], f'track chunk of {ylen(body)} bytes')
    for n in (250, 300, 70000):
        c.guard('chunks', longer, n)

    def blob(B, nbytes):
        """data of unknown length (a variable-length quantity of that many bytes) and unknown contents"""
        ds = [B(127, 1 if i == 0 else 0, f'n{i}') for i in range(nbytes)]
        n = const(0)
        for d in ds:
            n = n * 128 + d
        return b(*[d + 128 for d in ds[:-1]]) + b(ds[-1]) + [('s', 'data', const(0), n)]

    def any_length(kind, nbytes):
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        ev = [b'\xf0'] if kind is None else [b'\xff', bytes([kind])]
        body = [b'\x10'] + on_(0, p, v) + [b'\x08'] + ev + blob(B, nbytes) + [b'\x18'] + off_(0, p) + [END]
        what = 'system exclusive' if kind is None else 'meta events'
        c.demand(f'skipped {what}', reader(c, B.st, mfile(body)), [((), rtrack([rnote(16, 48, p, v)]))], f'event {body[3]!r} of unknown length ({nbytes} length bytes)')
    for kind in (None, 1, 3, 0x7f):
        for nbytes in (1, 2, 3):
            c.guard('skipped events of any length', any_length, kind, nbytes)

    def long_event(ev, n, fill):
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [b'\x10'] + on_(0, p, v) + [b'\x08' + ev + vlc(n) + (fill * n)[:n]] + [b'\x18'] + off_(0, p) + [END]
        c.demand('skipped events of any length', reader(c, B.st, mfile(body)), [((), rtrack([rnote(16, 48, p, v)]))], f'event {ev!r} with {n} data bytes')
    for ev in (b'\xf0', b'\xff\1', b'\xff\x7f'):
        for n in (0, 1, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 2047, 2048, 3000, 4096, 10000, 16383, 16384, 32768, 65535, 65536, 100000):
            c.guard('skipped events of any length', long_event, ev, n, b'\0\xf4')

    def any_chunk(where):
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [b'\x10'] + on_(0, p, v) + [b'\x18'] + off_(0, p) + [END]
        tr = [b'MTrk', ylen(body).to_bytes(4, 'big')] + body
        H = [b'MThd\0\0\0\6\0\0\0\1\0\x60']
        ns = [B(255, 0, f'n{i}') for i in range(4)]
        B.st = c.assume(B.st, Cond('le0', 1 - sum((x for x in ns[1:]), ns[0])))
        n = ((ns[0] * 256 + ns[1]) * 256 + ns[2]) * 256 + ns[3]
        junk = [b'junk'] + b(*ns) + [('s', 'data', const(0), n)]
        parts = junk + H + tr if where == 0 else H + junk + tr if where == 1 else H + tr + junk
        for kind in ('loads', 'load'):
            c.demand('chunks', reader(c, B.st, mkbytes(parts), kind=kind), [((), rtrack([rnote(16, 40, p, v)]))], f'another chunk of unknown length, place {where} ({kind})')
    for where in range(3):
        c.guard('chunks', any_chunk, where)


def simulate(evs, tpq=96, mc=36):
    """what the notes of one channel are: evs [(time, 'on'|'off', pitch, velocity)] with known pitches"""
    run, out = {}, []
    for t, kind, p, v in evs:
        if kind == 'on':
            if p not in run:
                run[p] = (t, v)
        elif p in run:
            t0, v0 = run.pop(p)
            out.append(rnote(t0, t, p, v0, tpq, mc))
    return out


def render(evs, ch=0):
    """[(time, kind, pitch, velocity[, channel])] -> bytes"""
    out, last = [], 0
    for e in evs:
        t, kind, p, v = e[:4]
        k = e[4] if len(e) > 4 else ch
        out += [vlc(t - last)] + (on_(k, p, v) if kind == 'on' else off_(k, p, v))
        last = t
    return out + [END]


@prop('C17', extra=SUPPORT)
def c17(c):
    import random
    c.I.loop_bound, c.I.small = 16, 2
    generated(c, 'generated files', 'c17', 200 if c.tier == 'quick' else 3000, 'c17')
    crowded(c, 'crowded files', ((1, 128, 20), (1, 40, 60), (2, 20, 30)))
    changed(c, 'changed files', 'c17', 150 if c.tier == 'quick' else 2500, 'c17.changed')

    def timing(tpq, d1, d2):
        B = Bytes(c)
        t0 = const(d1) if d1 is not None else B(127, 0, 't0')
        t1 = const(d2) if d2 is not None else B(127, 0, 't1')
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = b(t0) + on_(0, p, v) + b(t1) + off_(0, p, B(127)) + [END]
        c.demand('position and duration', reader(c, B.st, mfile(body, tpq)), [((), rtrack([rnote(t0, t0 + t1, p, v, tpq)]))], f'one note, {tpq} ticks per quarter')
    for tpq in (96, 480, 1, 24, 120, 7, 1000, 4096, 32767, 16384):
        c.guard('position and duration', timing, tpq, None, 24)
        c.guard('position and duration', timing, tpq, 8, None)

    def timing_known(tpq, t0, t1):
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [vlc(t0)] + on_(0, p, v) + [vlc(t1 - t0)] + off_(0, p, B(127)) + [END]
        c.demand('position and duration', reader(c, B.st, mfile(body, tpq)), [((), rtrack([rnote(t0, t1, p, v, tpq)]))], f'note from tick {t0} to {t1}, {tpq} ticks per quarter')
    for tpq, t0, t1 in ((96, 0, 96), (96, 96, 97), (96, 95, 191), (480, 10, 250), (480, 123456, 234567), (1, 1, 2), (3, 1, 2), (32767, 32767, 65534), (960, 2 ** 27, 2 ** 27 + 1)):
        c.guard('position and duration', timing_known, tpq, t0, t1)

    def velocity(lo, hi, exp):
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(hi, lo, 'v')
        body = [b'\0'] + on_(0, p, v) + [b'\x60'] + off_(0, p, B(127)) + [END]
        n = rnote(0, 96, p, v if exp is None else exp)
        c.demand('velocity', reader(c, B.st, mfile(body)), [((), rtrack([n]))], f'note-on velocity {lo}..{hi}')
    c.guard('velocity', velocity, 1, 126, None)
    c.guard('velocity', velocity, 127, 127, 127)
    for k in (1, 2, 63, 64, 65, 126):
        c.guard('velocity', velocity, k, k, k)

    def silent():
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        body = [b'\x08'] + on_(0, p, v) + [b'\x60'] + on_(0, p, 0) + [b'\x10'] + on_(0, p, 0) + [b'\x10'] + off_(0, p) + [END]
        c.demand('note-on with velocity 0 ends the note', reader(c, B.st, mfile(body)), [((), rtrack([rnote(8, 104, p, v)]))], 'on, on velocity 0')
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(127, 0, 'v')
        body = [b'\x08'] + on_(0, p, v) + [b'\x60'] + off_(0, p) + [END]
        c.demand('note-on with velocity 0 starts no note', reader(c, B.st, mfile(body)),
                 [((Cond('eq0', v),), rtrack([])), ((Cond('le0', 1 - v), Cond('le0', v - 126)), rtrack([rnote(8, 104, p, v)])), ((Cond('eq0', v - 127),), rtrack([rnote(8, 104, p, 127)]))], 'on of any velocity, off')
    c.guard('note-on with velocity 0', silent)

    def middle(kind, m):
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        if kind == 'int':
            B.st, mc = c.int_(B.st, 'mc')
            arg = N(mc)
        elif kind == 'tone':
            B.st, mc = c.int_(B.st, 'mc')
            B.st, arg = c.tone(B.st, mc)
        else:
            mc, arg = m, K(kind)
        body = [b'\0'] + on_(0, p, v) + [b'\x60'] + off_(0, p) + [END]
        c.demand('pitch', reader(c, B.st, mfile(body), middle_c=arg), [((), rtrack([rnote(0, 96, p, v, 96, mc)]))], f'middle_c {kind}')
    for kind, m in (('int', None), ('tone', None), ('C4', 48), ('C3', 36), ('F#2', 30)):
        c.guard('pitch', middle, kind, m)

    def bad_middle():
        Rd = c.mod('melodia.io.midi', 'MIDIReader')
        for bad in (K(1.5), NONE, T([N(const(1))])):
            c.demand('pitch', c.run(c.state(), Rd, [], {'middle_c': bad}), [((), EXC_T)], f'MIDIReader(middle_c={bad!r})')
    c.guard('pitch', bad_middle)

    def two(kinds, same, ticks=None):
        """events of two pitches (equal or not) on one channel, in every order"""
        B = Bytes(c)
        p = B(127, 0, 'p')
        q = p
        if not same:
            q = B(127, 0, 'q')
            B.st = c.assume(B.st, Cond('ne0', p - q))
        vs, evs, raw = [], [], []
        for i, (k, which) in enumerate(kinds):
            v = B(126, 1, f'v{i}')
            x = 'q' if which and not same else 'p'
            t = ticks[i] if ticks else 8 * (i + 1) + i * i
            evs.append((t, k, x, v))
            raw.append((t, k, q if which else p, v))
        exp = []
        run = {}
        for t, k, x, v in evs:
            if k == 'on':
                run.setdefault(x, (t, v))
            elif x in run:
                t0, v0 = run.pop(x)
                exp.append(rnote(t0, t, p if x == 'p' else q, v0))
        c.demand('pairing of note events', reader(c, B.st, mfile(render(raw))), [((), rtrack(exp))], ' '.join(k + ('q' if w else 'p') for k, w in kinds) + (' (p = q)' if same else '') + (f' at ticks {ticks}' if ticks else ''))
    import itertools
    seqs = []
    for n in (1, 2, 3, 4):
        for ks in itertools.product((('on', 0), ('off', 0), ('on', 1), ('off', 1)), repeat=n):
            if ks[0][1]:
                continue
            seqs.append(ks)
    rnd = random.Random(c.seed)
    short = [s for s in seqs if len(s) <= 3]
    long = [s for s in seqs if len(s) == 4]
    if c.tier == 'quick':
        long = rnd.sample(long, 40)
    for ks in short + long:
        c.guard('pairing of note events', two, ks, False)
    # coinciding ticks: every way in which neighbours share a tick
    for ks in short + (long if c.tier != 'quick' else long[:20]):
        pats = list(itertools.product((0, 12), repeat=len(ks) - 1))
        if c.tier == 'quick' and len(ks) > 2:
            pats = [pats[0], pats[rnd.randrange(1, len(pats))]]
        for pat in pats:
            t0 = rnd.choice((0, 0, 5))
            ts = [t0]
            for d in pat:
                ts.append(ts[-1] + d)
            c.guard('pairing of note events', two, ks, False, ts)
    for ks in ((('on', 0), ('on', 1), ('off', 0), ('off', 1)), (('on', 0), ('off', 1), ('on', 1), ('off', 0)), (('on', 0), ('on', 1), ('on', 0), ('off', 1))):
        c.guard('pairing of note events', two, ks, True)

    def zero_length():
        B = Bytes(c)
        p, v, w = B(127, 0, 'p'), B(126, 1, 'v'), B(126, 1, 'w')
        evs = [(8, 'on', p, v), (8, 'off', p, 64), (8, 'on', p, w), (20, 'off', p, 0)]
        c.demand('pairing of note events', reader(c, B.st, mfile(render(evs))), [((), rtrack([rnote(8, 8, p, v), rnote(8, 20, p, w)]))], 'note of no ticks')
    c.guard('pairing of note events', zero_length)

    def songs(seed, n):
        r = random.Random(seed)
        evs, t = [], 0
        B = Bytes(c)
        for i in range(n):
            t += r.choice((0, 1, 12, 48, 96, 300))
            evs.append((t, r.choice(('on', 'on', 'off')), r.choice((60, 62, 64)), B(126, 1, f'v{i}'), r.choice((0, 0, 5))))
        per = {}
        for e in evs:
            per.setdefault(e[4], []).append(e[:4])
        tpq = r.choice((96, 480, 10))
        exp = []
        for ch in per:
            exp += simulate(per[ch], tpq)
        y = mfile(render(evs), tpq)
        c.demand('notes of a file', reader(c, B.st, y), [((), rtrack(exp))], f'{n} events, all channels')
        for ch in per:
            c.demand('notes of a file', reader(c, B.st, y, ch), [((), rtrack(simulate(per[ch], tpq)))], f'{n} events, channel {ch}')
    for s in range(8 if c.tier == 'quick' else 60):
        c.guard('notes of a file', songs, c.seed * 1000 + s, 6 + s % 7)


@prop('C18', extra=SUPPORT)
def c18(c):
    c.I.loop_bound, c.I.small = 16, 2
    generated(c, 'generated files', 'c18', 200 if c.tier == 'quick' else 3000, 'c18')
    crowded(c, 'crowded files', ((16, 2, 8), (9, 2, 4), (12, 3, 0), (15, 1, 6), (16, 1, 0)))
    changed(c, 'changed files', 'c18', 150 if c.tier == 'quick' else 2500, 'c18.changed')

    def tsig(nn, dd, cc=24, bb=8):
        return [b'\0\xff\x58\4'] + b(nn, dd, cc, bb)

    def signature(dd):
        B = Bytes(c)
        nn = B(255, 0, 'nn')
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        note = [b'\x08'] + on_(0, p, v) + [b'\x08'] + off_(0, p) + [END]
        exp = [((), rtrack([rnote(8, 16, p, v)], ('sig', nn, const(2 ** dd))))]
        c.demand('time signature', reader(c, B.st, mfile(tsig(nn, dd, B(255), B(255)) + note), 0), exp, f'time signature nn/2**{dd}, channel 0')
        c.demand('time signature', reader(c, B.st, mfile(tsig(nn, dd) + [END]), 0), [((), rtrack([], ('sig', nn, const(2 ** dd))))], f'time signature nn/2**{dd}, no notes')
        c.demand('time signature', reader(c, B.st, mfile(tsig(nn, dd) + note)),
                 [((Cond('lt0', -nn),), exp[0][1]), ((Cond('eq0', nn),), ('track', ('sigv', const(0)), [rnote(8, 16, p, v)]))], f'time signature nn/2**{dd}, all channels')
    for dd in (0, 1, 2, 3, 4, 5, 8, 16, 255):
        c.guard('time signature', signature, dd)

    def default():
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        note = [b'\x08'] + on_(0, p, v) + [b'\x08'] + off_(0, p) + [END]
        for ch in (None, 0):
            c.demand('default time signature', reader(c, B.st, mfile(note), ch), [((), rtrack([rnote(8, 16, p, v)]))], 'no time signature event')
            c.demand('default time signature', reader(c, B.st, mfile([END]), ch), [((), rtrack([]))], 'only the end of the track')
        c.demand('missing channel', reader(c, B.st, mfile([END]), 1), [((), EXC_V)], 'no notes, channel 1')
    c.guard('default time signature', default)

    def last_wins():
        B = Bytes(c)
        n1, n2 = B(255, 1, 'n1'), B(255, 1, 'n2')
        c.demand('time signature', reader(c, B.st, mfile(tsig(n1, 2) + tsig(n2, 3) + [END]), 0), [((), rtrack([], ('sig', n2, const(8))))], 'two time signatures: the last counts')
    c.guard('time signature', last_wins)

    def per_channel():
        B = Bytes(c)
        p, v, w = B(127, 0, 'p'), B(126, 1, 'v'), B(126, 1, 'w')
        n0, n1 = B(255, 1, 'n0'), B(255, 1, 'n1')
        notes = [b'\0'] + on_(0, p, v) + [b'\0'] + on_(1, p, w) + [b'\x10'] + off_(0, p) + [b'\x10'] + off_(1, p) + [END]
        only = lambda t1, v, sg: rtrack([rnote(0, t1, p, v)], sg)
        both = [rnote(0, 16, p, v), rnote(0, 32, p, w)]
        # prefix for channel 1, none for channel 0
        f = mfile([b'\0\xff\x20\1\1'] + tsig(n1, 3) + notes)
        c.demand('time signature of a channel', reader(c, B.st, f, 0), [((), only(16, v, SIG44))], 'channel 0 has no time signature')
        c.demand('time signature of a channel', reader(c, B.st, f, 1), [((), only(32, w, ('sig', n1, const(8))))], 'time signature of channel 1')
        c.demand('time signature of all channels', reader(c, B.st, f),
                 [((Cond('lt0', n1 - 8),), rtrack(both, SIG44)), ((Cond('lt0', 8 - n1),), rtrack(both, ('sig', n1, const(8)))), ((Cond('eq0', n1 - 8),), rtrack(both, ('sigv', ONE)))], 'the greatest of the channels')
        # general one, then one for channel 1
        f = mfile(tsig(n0, 2) + [b'\0\xff\x20\1\1'] + tsig(n1, 2) + notes)
        c.demand('time signature of a channel', reader(c, B.st, f, 0), [((), only(16, v, ('sig', n0, const(4))))], 'channel 0 falls back to the general time signature')
        c.demand('time signature of a channel', reader(c, B.st, f, 1), [((), only(32, w, ('sig', n1, const(4))))], 'time signature of channel 1')
        c.demand('time signature of all channels', reader(c, B.st, f),
                 [((Cond('lt0', n0 - n1),), rtrack(both, ('sig', n1, const(4)))), ((Cond('le0', n1 - n0),), rtrack(both, ('sig', n0, const(4))))], 'the greatest of the channels')
        # one for each
        f = mfile([b'\0\xff\x20\1\0'] + tsig(n0, 1) + [b'\0\xff\x20\1\1'] + tsig(n1, 4) + notes)
        c.demand('time signature of a channel', reader(c, B.st, f, 0), [((), only(16, v, ('sig', n0, const(2))))], 'time signature of channel 0')
        c.demand('time signature of a channel', reader(c, B.st, f, 1), [((), only(32, w, ('sig', n1, const(16))))], 'time signature of channel 1')
        # for a channel without notes: no effect
        f = mfile([b'\0\xff\x20\1\7'] + tsig(n0, 1) + notes)
        c.demand('time signature of a channel', reader(c, B.st, f, 0), [((), only(16, v, SIG44))], 'time signature of another channel')
        c.demand('time signature of all channels', reader(c, B.st, f), [((), rtrack(both, SIG44))], 'time signature of a channel without notes')
    c.guard('time signature of a channel', per_channel)

    def select(chs, sel):
        B = Bytes(c)
        body, exp, t = [], {}, 0
        for i, ch in enumerate(chs):
            p, v = B(127, 0, f'p{i}'), B(126, 1, f'v{i}')
            body += [b'\x08'] + on_(ch, p, v) + [b'\x18'] + off_(ch, p)
            exp.setdefault(ch, []).append(rnote(t + 8, t + 32, p, v))
            t += 32
        f = mfile(body + [END])
        if sel is None:
            c.demand('all channels', reader(c, B.st, f), [((), rtrack([n for ns in exp.values() for n in ns]))], f'channels {chs}')
        else:
            c.demand('selected channel' if sel in exp else 'missing channel', reader(c, B.st, f, sel), [((), rtrack(exp[sel]) if sel in exp else EXC_V)], f'channels {chs}, channel={sel}')
    for chs in ((0,), (3, 0), (15, 9, 15), (0, 1, 2, 1)):
        for sel in (None, -1, *range(16), 16, 255):
            c.guard('selected channel', select, chs, sel)

    def unmatched():
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(126, 1, 'v')
        f = mfile([b'\0'] + on_(4, p, v) + [END])
        c.demand('selected channel', reader(c, B.st, f, 4), [((), rtrack([]))], 'a note that never ends')
        c.demand('missing channel', reader(c, B.st, f, 0), [((), EXC_V)], 'a note that never ends on channel 4, channel 0')
    c.guard('selected channel', unmatched)

    H = lambda kind, nt, div: [b'MThd\0\0\0\6'] + b(*[y for x in (kind, nt, div) for y in (x if isinstance(x, tuple) else (x >> 8, x & 255))])
    TR = [b'MTrk\0\0\0\4' + END]

    def header(which):
        B = Bytes(c)
        hi, lo = B(255, 0, 'hi'), B(255, 0, 'lo')
        val = hi * 256 + lo
        if which == 'format':
            parts = H((hi, lo), 1, 96)
            cases = [((Cond('lt0', -val),), PARSE), ((Cond('eq0', val),), rtrack([]))]
        elif which == 'number of tracks':
            parts = H(0, (hi, lo), 96)
            cases = [((Cond('lt0', val - 1),), PARSE), ((Cond('lt0', 1 - val),), PARSE), ((Cond('eq0', val - 1),), rtrack([]))]
        else:
            parts = H(0, 1, (hi, lo))
            cases = [((Cond('eq0', val),), PARSE), ((Cond('lt0', 0x7fff - val),), PARSE), ((Cond('lt0', -val), Cond('le0', val - 0x7fff)), rtrack([]))]
        c.demand('header: ' + which, reader(c, B.st, mkbytes(parts + TR)), cases, f'any {which}')
    for w in ('format', 'number of tracks', 'division'):
        c.guard('header: ' + w, header, w)

    def division(d):
        B = Bytes(c)
        t, p, v = B(127, 0, 't'), B(127, 0, 'p'), B(126, 1, 'v')
        body = b(t) + on_(0, p, v) + [b'\x08'] + off_(0, p) + [END]
        c.demand('division', reader(c, B.st, mfile(body, d)), [((), rtrack([rnote(t, t + 8, p, v, d)]))], f'{d} ticks per quarter')
    for d in (1, 2, 96, 255, 256, 480, 960, 10000, 32767):
        c.guard('division', division, d)

    def structure():
        h = H(0, 1, 96)
        bad = [
            ('empty file', []), ('header only', h), ('track only', TR), ('track before the header', TR + h), ('foreign chunk only', [b'RIFF\0\0\0\0']),
            ('incomplete chunk header', h + TR + [b'MTr']), ('incomplete header name', [b'MT']), ('incomplete body', h + [b'MTrk\0\0\0\5' + END]),
            ('incomplete header body', [b'MThd\0\0\0\6\0\0\0\1\0']), ('header of no bytes', [b'MThd\0\0\0\0'] + TR), ('header of 4 bytes', [b'MThd\0\0\0\4\0\0\0\1'] + TR),
        ]
        for what, parts in bad:
            c.demand('file structure', reader(c, c.state(), mkbytes(parts)), [((), PARSE)], what)
            c.demand('file structure', reader(c, c.state(), mkbytes(parts), kind='load'), [((), PARSE)], what + ' (load)')
    c.guard('file structure', structure)

    def lengths(kind, ok):
        B = Bytes(c)
        n = B(127, 0, 'n')
        B.st = c.assume(B.st, Cond('ne0', n - ok))
        parts = [b'\0\xff', bytes([kind])] + b(n) + [bytes(130)] + [END]
        c.demand('length of a meta event', reader(c, B.st, mfile(parts)), [((), PARSE)], f'meta event {kind:#x} of a wrong length')
    for k, ok in ((0x2F, 0), (0x20, 1), (0x58, 4)):
        c.guard('length of a meta event', lengths, k, ok)


ANYTRACK = ('either', [('anytrack',), PARSE])


@prop('C15', extra=SUPPORT)
def c15(c):
    c.I.loop_bound, c.I.small = 16, 0
    c.scen_budget = max(c.scen_budget, 400000)
    HEAD = b'MThd\0\0\0\6\0\0\0\1\0\x60'

    def ok(name, outs, what):
        c.demand(name, outs, [((), ANYTRACK)], what)

    def body(k, end, tail=b''):
        """a track chunk of k arbitrary bytes"""
        B = Bytes(c)
        parts = b(*[B(255, 0, f'b{i}') for i in range(k)]) + [tail] * bool(tail)
        n = ylen(parts)
        f = mkbytes([HEAD, b'MTrk', n.to_bytes(4, 'big')] + parts + ([end] if end else []))
        ok('any bytes in the track', reader(c, B.st, f), f'{k} arbitrary bytes' + (f' then {tail.hex()}' if tail else ''))
    for k in (0, 1, 2, 3) + ((4,) if c.tier != 'quick' else ()):
        c.guard('any bytes in the track', body, k, None)
    for k in (1, 2, 3):
        c.guard('any bytes in the track', body, k, None, END)
        c.guard('any bytes in the track', body, k, None, b'\0' * 4 + END)

    def status(s, k):
        """an event of this status, then arbitrary bytes"""
        B = Bytes(c)
        parts = [b'\0', bytes([s])] + b(*[B(255, 0, f'b{i}') for i in range(k)])
        f = mkbytes([HEAD, b'MTrk', ylen(parts).to_bytes(4, 'big')] + parts)
        ok('any bytes after a status', reader(c, B.st, f), f'status {s:#x}, {k} arbitrary bytes')
    for s in range(0x80, 0x100):
        for k in (0, 1, 2):
            c.guard('any bytes after a status', status, s, k)

    def meta(kind, k):
        B = Bytes(c)
        parts = [b'\0\xff', bytes([kind])] + b(*[B(255, 0, f'b{i}') for i in range(k)])
        f = mkbytes([HEAD, b'MTrk', ylen(parts).to_bytes(4, 'big')] + parts)
        ok('any bytes after a meta event', reader(c, B.st, f), f'meta event {kind:#x}, {k} arbitrary bytes')
    for kind in (0, 1, 0x20, 0x2f, 0x51, 0x58, 0x59, 0x7f, 0x80, 0xff):
        for k in (0, 1, 2):
            c.guard('any bytes after a meta event', meta, kind, k)

    def whole_file(k):
        B = Bytes(c)
        f = mkbytes(b(*[B(255, 0, f'b{i}') for i in range(k)]))
        ok('any file', reader(c, B.st, f), f'file of {k} arbitrary bytes')
    for k in (0, 1, 4, 7, 8, 9, 10):
        c.guard('any file', whole_file, k)

    def header(n, div):
        B = Bytes(c)
        parts = [b'MThd', n.to_bytes(4, 'big')] + b(*[B(255, 0, f'b{i}') for i in range(n)]) + [b'MTrk\0\0\0\x0c\x08\x90\x3c\x40\x60\x80\x3c\x40' + END]
        ok('any header', reader(c, B.st, mkbytes(parts)), f'header of {n} arbitrary bytes')
    for n in range(0, 9):
        c.guard('any header', header, n, None)

    def sizes():
        B = Bytes(c)
        sz = [B(255, 0, f's{i}') for i in range(4)]
        f = mkbytes([HEAD, b'MTrk'] + b(*sz) + [END])
        n = ((sz[0] * 256 + sz[1]) * 256 + sz[2]) * 256 + sz[3]
        c.demand('any chunk size', reader(c, B.st, f), [((Cond('lt0', n - 4),), PARSE), ((Cond('lt0', 4 - n),), PARSE), ((Cond('eq0', n - 4),), ('anytrack',))], 'track chunk of any size')
        f = mkbytes([b'MThd'] + b(*sz) + [HEAD[8:], b'MTrk\0\0\0\4', END])
        ok('any chunk size', reader(c, B.st, f), 'header chunk of any size')
    c.guard('any chunk size', sizes)

    # files that are fine but for one byte, and beginnings of files
    songs = {
        'two notes': b'\0\xff\x58\4\3\2\x18\x08\0\xff\x51\3\7\xa1\x20\0\x90\x3c\x40\x60\x80\x3c\x40\0\x91\x40\x50\x81\x40\x81\x40\0' + END,
        'other events': b'\0\xff\x20\1\5\0\xf0\2\1\xf7\0\xc3\7\x05\x08\0\xb0\7\x64\0\xf8\0\x95\x3c\x01\x10\x3c\0' + END,
    }
    for name, bd in songs.items():
        data = HEAD + b'MTrk' + len(bd).to_bytes(4, 'big') + bd

        def one(i):
            B = Bytes(c)
            f = mkbytes([data[:i]] + b(B(255, 0, 'x')) + [data[i + 1:]])
            ok('one byte changed', reader(c, B.st, f), f'{name}: byte {i} arbitrary')

        def cut(i):
            # whatever the channel asked for: the file is not readable
            ch = (None, 0, 5)[i % 3]
            c.demand('file cut short', reader(c, c.state(), K(data[:i]), ch, ('loads', 'load')[i % 2]), [((), PARSE)], f'{name}: first {i} bytes')
            if i >= 22:
                d2 = data[:18] + (i - 22).to_bytes(4, 'big') + data[22:i]
                c.demand('track cut short', reader(c, c.state(), K(d2), ch), [((), PARSE)], f'{name}: first {i - 22} bytes of the track')
        for i in range(len(data)):
            c.guard('one byte changed', one, i)
        for i in range(len(data)):
            c.guard('file cut short', cut, i)

    FULL = HEAD + b'MTrk\0\0\0\x0c\x08\x90\x3c\x40\x60\x80\x3c\x40' + END

    def trailing(k):
        """a beginning of another chunk after the last one"""
        for ch in (None, 0, 3):
            B = Bytes(c)
            f = mkbytes([FULL] + b(*[B(255, 0, f'b{i}') for i in range(k)]))
            for kind in ('loads', 'load'):
                c.demand('incomplete chunk', reader(c, B.st, f, ch, kind), [((), PARSE)], f'{k} bytes after the last chunk, channel {ch} ({kind})')
        for n in (0, 2):
            # another chunk of any other name in between
            B = Bytes(c)
            nm = [B(255, 0, 'name')] + [B(255, 0, f'n{i}') for i in range(3)]
            B.st = c.assume(B.st, Cond('ne0', nm[0] - ord('M')))
            f = mkbytes([FULL] + b(*nm) + [n.to_bytes(4, 'big')] + b(*[B(255, 0, f'c{i}') for i in range(n)]) + b(*[B(255, 0, f'b{i}') for i in range(k)]))
            c.demand('incomplete chunk', reader(c, B.st, f, None, 'load' if n else 'loads'), [((), PARSE)], f'another chunk of {n} bytes and {k} bytes after the last chunk')
    for k in range(1, 8):
        c.guard('incomplete chunk', trailing, k)

    def body_short(k, name, at):
        """a chunk that says it is longer than what is left"""
        B = Bytes(c)
        sz = [B(255, 0, f's{i}') for i in range(4)]
        n = ((sz[0] * 256 + sz[1]) * 256 + sz[2]) * 256 + sz[3]
        B.st = c.assume(B.st, Cond('lt0', k - n))
        f = mkbytes([FULL[:at], name] + b(*sz, *[B(255, 0, f'b{i}') for i in range(k)]))
        for kind in ('loads', 'load'):
            c.demand('incomplete chunk', reader(c, B.st, f, None, kind), [((), PARSE)], f'chunk {name!r} of more than {k} bytes, {k} left ({kind})')
    for k in (0, 1, 2, 7):
        for name in (b'MTrk', b'XXXX', b'MThd'):
            for at in (0, 14, len(FULL)):
                c.guard('incomplete chunk', body_short, k, name, at)

    def unknown(s, pre):
        B = Bytes(c)
        parts = [pre + b'\0', bytes([s])] + b(*[B(255, 0, f'b{i}') for i in range(3)]) + [END]
        c.demand('unknown event', reader(c, B.st, mfile(parts)), [((), PARSE)], f'status {s:#x}')
    for s in (0xF4, 0xF5, 0xF7, 0xFD):
        c.guard('unknown event', unknown, s, b'')
        c.guard('unknown event', unknown, s, b'\0\x90\x3c\x40')

    def first_running(pre):
        B = Bytes(c)
        parts = b(*[B(255, 128, f'd{i}') for i in range(pre)]) + b(B(127, 0, 'd'), B(127, 0, 'x'), B(255, 0, 'y'), B(255, 0, 'z')) + [END]
        for kind in ('loads', 'load'):
            c.demand('running status first', reader(c, B.st, mfile(parts), None, kind), [((), PARSE)], f'data byte after the first delta time of {pre + 1} bytes')
    for pre in (0, 1, 2):
        c.guard('running status first', first_running, pre)

    def two_chunks(first, second):
        """an error in a track chunk is reported, whichever chunk comes first"""
        B = Bytes(c)
        p, v = B(127, 0, 'p'), B(127, 1, 'v')
        bodies = {'good': [b'\0\x90'] + b(p, v) + [b'\x60\x80'] + b(p) + [b'\0', END], 'empty': [END], 'cut': [b'\0\x90'] + b(p), 'no end': [b'\0\x90'] + b(p, v), 'nothing': [],
                  'unknown': [b'\0\xf4', END], 'running': [b'\0'] + b(p, v) + [END], 'length': [b'\0\xff\1\x20', END]}
        parts = [HEAD]
        for k in (first, second):
            parts += [b'MTrk' + ylen(bodies[k]).to_bytes(4, 'big')] + bodies[k]
        for ch in (None, 0):
            c.demand('error in a track chunk', reader(c, B.st, mkbytes(parts), ch), [((), PARSE)], f'track chunks: {first}, {second}')
    for x in ('cut', 'no end', 'nothing', 'unknown', 'running', 'length'):
        for y in ('good', 'empty'):
            c.guard('error in a track chunk', two_chunks, x, y)
            c.guard('error in a track chunk', two_chunks, y, x)

    import random

    def gen_cut(i, spec):
        """generated files: cut at any place they are not readable, with one byte changed they are readable or not"""
        rnd = random.Random(i)
        spec = dict(spec, after=-1, tail=0)
        data = given_bytes(c, rnd, dict(spec, before=-1, between=-1, header=6))
        at = rnd.randrange(len(data))
        ch = rnd.choice((None, 0, 3))
        c.demand('file cut short', reader(c, c.state(), K(data[:at]), ch), [((), PARSE)], f'first {at} bytes of {data.hex()}')
        at = rnd.randrange(22, len(data))
        d2 = data[:18] + (at - 22).to_bytes(4, 'big') + data[22:at]
        c.demand('track cut short', reader(c, c.state(), K(d2), ch), [((), PARSE)], d2.hex())
        B = Bytes(c)
        at = rnd.randrange(len(data))
        f = mkbytes([data[:at]] + b(B(255, 0, 'x')) + [data[at + 1:]])
        if len(data) < 70:
            ok('one byte changed', reader(c, B.st, f), f'byte {at} of {data.hex()} arbitrary')
        for _ in range(3):
            d3 = damaged(rnd, data, rnd.choice((1, 2, 4))) if rnd.random() < 0.6 else resized(data, damaged(rnd, track_body(data), rnd.choice((1, 2, 4)), 0))
            exactly(c, 'some bytes changed', d3, kind=rnd.choice(('loads', 'load')), ch=rnd.choice((None, None, 0, 9)))
    crowded(c, 'many events', ((2, 90, 900),))
    for i in range(100 if c.tier == 'quick' else 1500):
        rnd = random.Random(f'{c.seed}.c15.{i}')
        c.guard('file cut short', gen_cut, i, gen_midi.a_file(rnd, rnd.choice(('c16', 'c17', 'c18')), rnd.choice((1, 2, 4, 6, 10))))

    def garbage(i):
        rnd = random.Random(f'{c.seed}.g.{i}')
        out = []
        for _ in range(rnd.randrange(1, 40)):
            out.append(rnd.choice((0, 0, 0, 1, 2, 3, 4, 0x3c, 0x7f, 0x80, 0x81, 0x90, 0x95, 0xb0, 0xc0, 0xf0, 0xf1, 0xf4, 0xf7, 0xff, 0xff, 0x2f, 0x20, 0x58, rnd.randrange(256))))
        bd = bytes(out)
        d = HEAD[:12] + rnd.choice((b'\0\x60', b'\0\1', b'\x7f\xff', b'\0\0', b'\x80\0', b'\xe7\x28')) + b'MTrk' + len(bd).to_bytes(4, 'big') + bd
        exactly(c, 'any bytes in the track', d)
        d = d[:18] + (len(bd) + 4).to_bytes(4, 'big') + bd + END
        exactly(c, 'any bytes in the track', d)
    for i in range(150 if c.tier == 'quick' else 3000):
        c.guard('any bytes in the track', garbage, i)

    def channel():
        """with a channel, ValueError only when the file has no such channel"""
        B = Bytes(c)
        ch = B(15, 0, 'ch')
        p, v = B(127, 0, 'p'), B(127, 1, 'v')
        f = mfile([b'\0\x93'] + b(p, v) + [b'\x60\x83'] + b(p) + [b'\x40', END])
        c.demand('channel argument', reader(c, B.st, f, ch), [((Cond('eq0', ch - 3),), ('anytrack',)), ((Cond('lt0', ch - 3),), EXC_V), ((Cond('lt0', 3 - ch),), EXC_V)], 'any channel')
        B = Bytes(c)
        x, y = B(255, 0, 'x'), B(255, 0, 'y')
        f = mfile([b'\0'] + b(x, y) + [END])
        c.demand('channel argument', reader(c, B.st, f, 0), [((), ('either', [('anytrack',), PARSE, EXC_V]))], 'channel 0 of a file of arbitrary bytes')
    c.guard('channel argument', channel)


def vback(v):
    """the velocity a file brings back"""
    if isinstance(v, Atom):
        return ('f', Atom('fdiv', (Atom('ffromint', (Poly.atom(Atom('fint', (Atom('fmul', (Atom('fconst', (127.0,), 'float'), v), 'float'),), 'int')),), 'float'), Atom('fconst', (127.0,), 'float')), 'float'))
    return ('f', int(v * 127) / 127.0)


@prop('C19', extra=SUPPORT)
def c19(c):
    import random
    c.I.loop_bound, c.I.small = 16, 2

    def back(outs, t, ch=None, rmc=None, wkind='dumps', **kw):
        res = []
        for o in dumped(c, outs, t, **kw):
            if o.exc is not None:
                res.append(o)
            else:
                res += reader(c, o.st, o.v, ch, **({} if rmc is None else {'middle_c': rmc}))
        return res

    def expect(items, sg=SIG44):
        return ('track', sg, [item(const(p), ('note', ('tone', q), ('sigv', const(d)), vback(v))) for p, d, q, v in items])

    def positive(c, outs, items):
        """velocities that a note-on event can carry"""
        for o in outs:
            st = o.st
            for it in items:
                if isinstance(it[3], Atom):
                    st = st.assume(Cond('fle', 0.01, it[3]))
                    st = st.assume(Cond('fle', it[3], 0.99))
            o.st = st
        return outs

    songs = [
        [],
        [((0, 1), (1, 4))],
        [((3, 8), (1, 4))],
        [((0, 1), (1, 4)), ((1, 4), (1, 4))],
        [((1, 4), (1, 4), 7), ((0, 1), (1, 4), 4)],
        [((0, 1), (1, 1), 0), ((0, 1), (1, 1), 4), ((0, 1), (1, 1), 7)],
        [((0, 1), (1, 1), 0), ((1, 4), (1, 8), 4), ((1, 2), (1, 4), 7), ((3, 4), (1, 16), 9)],
        [((0, 1), (1, 4), 5), ((1, 4), (1, 4), 5), ((1, 2), (1, 2), 5)],
        [((5, 2), (3, 16), -24), ((100, 1), (7, 2), 103)],
        [((1, 32), (1, 32), 1), ((3, 32), (5, 32), 2), ((1, 16), (1, 2), 3)],
    ]
    rnd = random.Random(c.seed)
    for _ in range(8 if c.tier == 'quick' else 80):
        n = rnd.randrange(2, 6)
        songs.append([((rnd.randrange(0, 33), 8), (rnd.randrange(1, 9), rnd.choice((2, 4, 8, 16))), i * 3) for i in range(n)])

    def song_(spec, ppq, ch, sg):
        st = c.state()
        s = None
        so = SIG44
        if sg is not None:
            st, n = c.int_(st, 'nn', 1, 255)
            st, s = c.sig(st, n, 2 ** sg)
            so = ('sig', n, const(2 ** sg))
        outs, t, items = song(c, st, spec, s)
        outs = positive(c, outs, items)
        for sel in (None, ch):
            if not items and sel:
                continue
            c.demand('write then read', back(outs, t, sel, pulses_per_quarter=N(const(ppq)), channel=N(const(ch))), [((), expect(items, so))], f'notes {[(x[0], x[1]) for x in spec]}, {ppq} pulses, channel {ch}' + ('' if sel is None else ' selected'))
    for i, spec in enumerate(songs):
        c.guard('write then read', song_, spec, (96, 480, 24, 960, 1024, 8)[i % 5], (0, 3, 15)[i % 3], (None, 2, 3, 0, 4)[i % 5])
    for i in range(12 if c.tier == 'quick' else 100):
        # times at the finest that the pulses allow
        e, odd = rnd.choice((5, 8, 10, 11, 12, 12)), rnd.choice((1, 1, 3, 5, 15, 31))
        while odd << e > 0x7FFF:
            odd //= 2
        odd |= 1
        d = 4 << e
        n, spec, k = rnd.randrange(1, 5), [], 0
        for j in range(n):
            k = rnd.choice((k + rnd.randrange(0, 40), rnd.randrange(0, 3 * d)))
            spec.append(((k, d), (rnd.choice((1, 3, rnd.randrange(1, 2 * d))), d), 5 * j))
        c.guard('write then read', song_, spec, odd << e, rnd.randrange(16), rnd.choice((None, 2)))

    def exact(which, k, ppq, kk):
        """a position or duration of any number of 2**k-ths"""
        st, x = c.int_(c.state(), 'x', 0)
        st, p = c.int_(st, 'pitch', -24, 103)
        st, tn = c.tone(st, p)
        st, v = c.flt(st, 'v', 0.01, 0.99)
        st, s = c.sig(st, *((1, 4) if which == 'pos' else (x, 2 ** k)))
        st, nt = c.note(st, tn, s, v)
        st, t = track(c, st)
        d = x * Fraction(4 * ppq, 2 ** k)
        st = c.assume(st, Cond('lt0', d - 2 ** (7 * kk)))
        if st is not None and kk > 1:
            st = c.assume(st, Cond('le0', 2 ** (7 * (kk - 1)) - d))
        if st is None:
            return
        outs = adds(c, start(st), t, nt, T2(x, 2 ** k) if which == 'pos' else T2(0, 1))
        val = x * Fraction(1, 2 ** k)
        exp = ('track', SIG44, [item(val if which == 'pos' else const(0), ('note', ('tone', p), ('sigv', const(Fraction(1, 4)) if which == 'pos' else val), vback(v)))])
        c.demand('any time survives', back(outs, t, pulses_per_quarter=N(const(ppq))), [((), exp)], f'{which} x/{2 ** k}, {ppq} pulses, {kk}-byte delta time')
    for which in ('pos', 'dur'):
        for k, ppq in ((0, 96), (2, 96), (3, 96), (5, 96), (7, 96), (4, 480), (6, 1024), (2, 1), (12, 1024), (3, 30)):
            for kk in (1, 2, 3, 4) if (k, ppq) != (6, 1024) else (1, 2):
                c.guard('any time survives', exact, which, k, ppq, kk)

    def resolution():
        st, ppq = c.int_(c.state(), 'ppq', 1, 32767)
        st, p = c.int_(st, 'pitch', -24, 103)
        st, tn = c.tone(st, p)
        st, v = c.flt(st, 'v', 0.01, 0.99)
        st, s = c.sig(st, 1, 4)
        st, nt = c.note(st, tn, s, v)
        st, t = track(c, st)
        outs = adds(c, start(st), t, nt, T2(0, 1))
        exp = ('track', SIG44, [item(const(0), ('note', ('tone', p), ('sigv', const(Fraction(1, 4))), vback(v)))])
        c.demand('any resolution', back(outs, t, pulses_per_quarter=N(ppq)), [((), exp)], 'one quarter note, any pulses_per_quarter')
    c.guard('any resolution', resolution)

    def middle(kind):
        st, p = c.int_(c.state(), 'pitch')
        st, mc = c.int_(st, 'mc')
        st = c.assume(st, Cond('le0', -(p + 60 - mc)), Cond('le0', p + 60 - mc - 127))
        st, tn = c.tone(st, p)
        st, s = c.sig(st, 1, 4)
        st, v = c.flt(st, 'v', 0.01, 0.99)
        st, nt = c.note(st, tn, s, v)
        st, t = track(c, st)
        if kind == 'tone':
            st, arg = c.tone(st, mc)
        else:
            arg = N(mc)
        outs = adds(c, start(st), t, nt, T2(0, 1))
        exp = ('track', SIG44, [item(const(0), ('note', ('tone', p), ('sigv', const(Fraction(1, 4))), vback(v)))])
        c.demand('any pitch survives', back(outs, t, rmc=arg, middle_c=arg), [((), exp)], f'any pitch, any middle_c ({kind})')
    for k in ('int', 'tone'):
        c.guard('any pitch survives', middle, k)

    def velocity(v):
        outs, t, items = song(c, c.state(), [((0, 1), (1, 4), None, v)])
        c.demand('velocity', back(outs, t), [((), expect(items))], f'velocity {v}')
    for v in (1.0, 0.5, 0.99, 1 / 127, 2 / 127, 64 / 127, 0.01, 0.3333, 126.5 / 127):
        c.guard('velocity', velocity, v)

    def tempo():
        outs, t, items = song(c, c.state(), [((0, 1), (1, 4)), ((1, 4), (1, 8))])
        outs = positive(c, outs, items)
        st, bpm = c.flt(outs[0].st, 'bpm', 4.0, 1e6)
        outs[0].st = st
        c.demand('tempo does not matter', back(outs, t, bpm=F(bpm)), [((), expect(items))], 'any tempo')
    c.guard('tempo does not matter', tempo)

    def generated_track(r):
        with c.budget(400000):
            generated_track_(r)

    def generated_track_(r):
        outs, t, y, kw, items = random_song(c, r)
        for o in outs:
            for it in items:
                if isinstance(it[3], Atom):
                    o.st = o.st.assume(Cond('fle', it[3], 0.99))
        exp = expect(items, ('sig', const(r['sg'][0]), const(2 ** r['sg'][1])))
        for sel in (None, r['ch']):
            if not items and sel:
                continue
            c.demand('write then read', back(outs, t, sel, kw['middle_c'], **kw), [((), exp)], f'{r}' + ('' if sel is None else ', channel selected'))
    for i in range(150 if c.tier == 'quick' else 2500):
        c.guard('write then read', generated_track, trip_spec(random.Random(f'{c.seed}.c19.{i}')))

    def long_track(n):
        with c.budget(10 ** 8):
            r = long_spec(random.Random(f'{c.seed}.long'), n)
            outs, t, y, kw, items = random_song(c, r)
            c.demand('write then read', back(outs, t, None, kw['middle_c'], **kw), [((), expect(items))], f'{n} notes')
    for n in (40,) if c.tier == 'quick' else (40, 300, 600):
        c.guard('write then read', long_track, n)
