"""MIDI writer and reader."""
from props import prop
from props_core import EXC_V, v_of
from props_track import *
from oblig import *
from poly import sym
from check import Out

SUPPORT = [('_support', __file__.replace('props_midi.py', 'support.py'))]


def fl(p, n):
    """floor(p / 2**n)"""
    if p.ival() is not None:
        return const(p.ival() >> n)
    return Poly.atom(Atom('floor', (p * Fraction(1, 2 ** n),)))


def be(p, n):
    """big-endian bytes of a term"""
    p = as_poly(p)
    out = []
    for i in reversed(range(n)):
        out.append(('b', fl(p, 8 * i) - fl(p, 8 * (i + 1)) * 256 if i < n - 1 else fl(p, 8 * i)))
    return out


def vl(p, n):
    """variable-length quantity of n bytes"""
    p = as_poly(p)
    out = []
    for i in reversed(range(n)):
        b = fl(p, 7 * i) - (fl(p, 7 * (i + 1)) * 128 if i < n - 1 else 0)
        out.append(('b', b + (128 if i else 0)))
    return out


def vlconds(p, n):
    c = [Cond('lt0', p - 2 ** (7 * n))]
    if n > 1:
        c.append(Cond('le0', 2 ** (7 * (n - 1)) - p))
    return c


def vlc(x):
    """variable-length quantity of a number"""
    out = [x & 0x7f]
    x >>= 7
    while x:
        out.insert(0, 0x80 | (x & 0x7f))
        x >>= 7
    return bytes(out)


def ylen(parts):
    r = sum(len(p) if isinstance(p, bytes) else 1 for p in parts if not (isinstance(p, tuple) and p[0] == 's'))
    for p in parts:
        if isinstance(p, tuple) and p[0] == 's':
            r = p[3] + r
    return r


def fdiv(x, b):
    return Atom('fdiv', (Atom('fconst', (float(x),), 'float'), b), 'float')


def tempo_of(bpm):
    if isinstance(bpm, Atom):
        return be(Poly.atom(Atom('fint', (fdiv(60000000, bpm),), 'int')), 3)
    return [int(60000000 / bpm).to_bytes(3, 'big')]


def head(ppq):
    return [b'MThd\0\0\0\6\0\0\0\1'] + be(ppq, 2)


def file_of(ppq, body):
    return mkbytes(file_parts(ppq, body))


def file_parts(ppq, body):
    n = ylen(body)
    return (head(ppq) + [b'MTrk'] + ([n.to_bytes(4, 'big')] if isinstance(n, int) else be(n, 4)) + body)


def prefix(num, logd, bpm=120.0):
    return [b'\0\xff\x58\4'] + be(num, 1) + be(logd, 1) + [b'\x18\x08\0\xff\x51\3'] + tempo_of(bpm)


END = b'\0\xff\x2f\0'


def velbyte(v):
    if isinstance(v, Atom):
        return ('b', Poly.atom(Atom('fint', (Atom('fmul', (Atom('fconst', (127.0,), 'float'), v), 'float'),), 'int')))
    return bytes([max(0, min(127, int(v * 127)))])


def pitchbyte(p, mc=36):
    return ('b', as_poly(p) + (60 - mc))


def on(ch, p, v, mc=36):
    return [bytes([0x90 | ch]), pitchbyte(p, mc), velbyte(v)]


def off(ch, p, mc=36):
    return [bytes([0x80 | ch]), pitchbyte(p, mc), b'\x40']


def body_of(items, ppq, ch=0, mc=36, sg=(4, 2), bpm=120.0):
    """items: [(pos Fraction, dur Fraction, pitch, velocity)] in track order, all times known"""
    from math import floor
    evs = []
    for pos, dur, p, v in items:
        a = floor(pos * 4 * ppq)
        b = a + floor(dur * 4 * ppq)
        evs.append((a, on(ch, p, v, mc)))
        evs.append((b, off(ch, p, mc)))
    evs.sort(key=lambda e: e[0])
    out, last = prefix(sg[0], sg[1], bpm), 0
    for t, e in evs:
        out = out + [vlc(t - last)] + e
        last = t
    return out + [END]


def writer(c, st, **kw):
    W = c.mod('melodia.io.midi', 'MIDIWriter')
    return c.one(st, W, [], kw)


def note_(c, st, name, pos, dur, pitch=None, vel=None):
    """a note of known duration -> st, ref, (pos, dur, pitch, velocity)"""
    if pitch is None:
        st, p = c.int_(st, name + '.pitch', -24, 103)
    else:
        p = as_poly(pitch)
    st, t = c.tone(st, p)
    st, s = c.sig(st, dur[0], dur[1])
    if vel is None:
        st, vel = c.flt(st, name + '.vel', 0.0, 1.0)
    st, r = c.note(st, t, s, vel)
    return st, r, (Fraction(pos[0], pos[1]), Fraction(dur[0], dur[1]), p, vel)


def song(c, st, spec, sg=None):
    """spec: [(pos, dur[, pitch[, vel]])] -> (outs, track, items in track order)"""
    st, t = track(c, st) if sg is None else track(c, st, sg)
    nts, items = [], []
    for i, x in enumerate(spec):
        st, r, it = note_(c, st, f'n{i}', *x)
        nts.append((r, x[0]))
        items.append(it)
    outs = start(st)
    for r, pos in nts:
        outs = adds(c, outs, t, r, T2(*pos))
    items = sorted(items, key=lambda x: x[0])
    return outs, t, items


def dumped(c, outs, t, **kw):
    res = []
    for o in outs:
        if o.exc is not None:
            res.append(o)
            continue
        st, w = writer(c, o.st, **kw)
        res += c.method(st, w, 'dumps', [t])
    return res


def random_spec(rnd, whole=None):
    """a track and settings: known times, mostly unknown pitches and velocities.
    whole: all times are whole numbers of pulses, notes of equal pitch do not overlap"""
    ppq = rnd.choice((1, 2, 3, 7, 24, 96, 96, 120, 480, 960, 9600, 32767, rnd.randrange(1, 32768)))
    maxk = 14
    if whole:
        maxk = min(14, 2 + ((ppq & -ppq).bit_length() - 1))
    n = rnd.randrange(0, 7)
    scale = rnd.choice((1, 1, 4, 100, 5000, 10 ** 6, 10 ** 6, 2 ** 52, 2 ** 60))
    spec, used = [], set()
    mc = rnd.choice((36, 36, 48, 60, 0, -5, rnd.randrange(-100, 100)))
    for i in range(n):
        k, kd = (rnd.randrange(0, maxk + 1) if rnd.random() < 0.5 else rnd.randrange(0, min(maxk, 4) + 1) for _ in range(2))
        pos = (rnd.randrange(0, scale * 2 ** k + 1), 2 ** k)
        if rnd.random() < 0.3 and spec:
            pos = rnd.choice(spec)[0]
        dur = (rnd.randrange(0, rnd.choice((1, 1, 3, scale)) * 2 ** kd + 1), 2 ** kd)
        if not whole:
            # the same times over larger denominators, and times just below
            pos, dur = odd_time(rnd, pos), odd_time(rnd, dur)
        f = Fraction(*pos)
        pitch = None
        if f in used or any(Fraction(*x[0]) == f for x in spec):
            pitch = rnd.randrange(0, 127) - 60 + mc
        used.add(f)
        v = None if rnd.random() < 0.5 else rnd.choice((0.0, 1.0, 0.5, rnd.random()))
        if v is not None and whole:
            v = max(v, 1 / 127 + 1e-9)
        spec.append((pos, dur, pitch, v))
    # notes at one position are ordered by pitch: make those pitches known and different
    for i, x in enumerate(spec):
        if sum(Fraction(*y[0]) == Fraction(*x[0]) for y in spec) > 1:
            spec[i] = (x[0], x[1], 3 * i + rnd.randrange(0, 3) - 20 + mc, x[3])
    rnd.shuffle(spec)
    return dict(ppq=ppq, ch=rnd.randrange(16), mc=mc, sg=(rnd.choice((4, 3, 2, 1, 5, 6, 7, 12, 255, rnd.randrange(1, 256))), rnd.choice((2, 2, 3, 0, 1, 4, 7))),
                bpm=rnd.choice((120.0, 60.0, 90.5, 240.0, 1000.0, 4.0, 3.7, rnd.uniform(10, 300))), spec=spec)


def odd_time(rnd, x):
    how = rnd.random()
    if how < 0.75:
        return x
    j = rnd.choice((1, 3, 8, 17, 20, 40, 53, 60))
    y = (x[0] * 2 ** j, x[1] * 2 ** j)
    return (max(0, y[0] - rnd.choice((1, 1, -1, 3))), y[1]) if how > 0.87 else y


def trip_spec(rnd):
    """a track that survives writing and reading: whole pulses, notes of equal pitch apart, velocities from 1/127"""
    ppq = rnd.choice((1, 2, 3, 7, 24, 60, 96, 96, 100, 120, 192, 480, 960, 1024, 9600, 16384, 32767, rnd.randrange(1, 32768), rnd.randrange(1, 32768)))
    k0 = min(14, 2 + ((ppq & -ppq).bit_length() - 1))
    mc = rnd.choice((36, 36, 48, 60, 0, -5, rnd.randrange(-100, 100)))
    pitches = rnd.sample(range(mc - 60, mc + 68), rnd.choice((0, 1, 1, 2, 3, 4)))
    if rnd.random() < 0.3:
        pitches = [mc - 60, mc + 67][:len(pitches)] + pitches[2:]
    unit = Fraction(1, 2 ** rnd.randrange(0, k0 + 1))
    scale = rnd.choice((4, 8, 100, 10 ** 4, 10 ** 4, 2 ** 56, 2 ** 70))

    def w(x):
        f = 2 ** rnd.choice((0, 0, 1, 3))
        if x.denominator * f > 16384:
            f = 1
        return (x.numerator * f, x.denominator * f)
    spec = []
    for p in pitches:
        at = unit * rnd.choice((0, 0, rnd.randrange(scale)))
        for _ in range(rnd.choice((1, 1, 2, 3, 4))):
            d = unit * rnd.choice((1, 2, rnd.randrange(1, scale)))
            spec.append((w(at), w(d), p, rnd.choice((None, None, 1.0, 1 / 127, 64 / 127, 0.5, rnd.uniform(1 / 127 + 1e-9, 1)))))
            at += d + unit * rnd.choice((0, 0, 1, rnd.randrange(scale)))
    rnd.shuffle(spec)
    return dict(ppq=ppq, ch=rnd.randrange(16), mc=mc, sg=(rnd.choice((4, 3, 2, 1, 255, rnd.randrange(1, 256))), rnd.choice((2, 2, 3, 0, 1, 4, 7, 14))),
                bpm=rnd.choice((120.0, 60.0, 90.5, 3.7, rnd.uniform(10, 300))), spec=spec, minvel=0.01)


def random_song(c, r, st=None, pre=''):
    """-> (outs, track, expected bytes, keyword arguments of the writer, items in track order)"""
    st = c.state() if st is None else st
    st, t = track(c, st, T2(r['sg'][0], 2 ** r['sg'][1]))
    nts, items = [], []
    for i, (pos, dur, pitch, vel) in enumerate(r['spec']):
        st, p = c.int_(st, f'{pre}n{i}.pitch', r['mc'] - 60, r['mc'] + 67) if pitch is None else (st, const(pitch))
        st, tn = c.tone(st, p)
        st, s = c.sig(st, *dur)
        if vel is None:
            st, vel = c.flt(st, f'{pre}n{i}.vel', r.get('minvel', 0.0), 1.0)
        st, x = c.note(st, tn, s, vel)
        nts.append((x, pos))
        items.append((Fraction(*pos), Fraction(*dur), p, vel))
    outs = start(st)
    for x, pos in nts:
        outs = adds(c, outs, t, x, T2(*pos))
    items = sorted(items, key=lambda x: (x[0], x[2].ival() if x[2].ival() is not None else 0))
    kw = dict(pulses_per_quarter=N(const(r['ppq'])), channel=N(const(r['ch'])), middle_c=N(const(r['mc'])), bpm=K(r['bpm']))
    return outs, t, ('y', file_of(r['ppq'], body_of(items, r['ppq'], r['ch'], r['mc'], r['sg'], r['bpm']))), kw, items


def random_files(c, name, n, salt):
    import random

    def one(r):
        outs, t, exp, kw, items = random_song(c, r)
        c.demand(name, dumped(c, outs, t, **kw), [((), exp)], f'{len(items)} notes, {r["ppq"]} pulses per quarter, channel {r["ch"]}, middle c {r["mc"]}, signature {r["sg"][0]}/{2 ** r["sg"][1]}, {r["bpm"]} bpm')
    for i in range(n):
        c.guard(name, one, random_spec(random.Random(f'{c.seed}.{salt}.{i}')))


def long_spec(rnd, n):
    """a long track (chunk lengths of two and more bytes), everything known; notes of one key do not overlap"""
    spec, at = [], 0
    if n > 3000:        # deltas of four bytes: a chunk of more than 64 KiB with the fewest notes
        for i in range(n):
            spec.append(((at, 16), (20000, 16), i % 40 - 20, 0.5))
            at += 40000
        return dict(spec=spec, ppq=480, ch=3, mc=36, sg=(4, 2), bpm=120.0)
    for i in range(n):
        spec.append(((at, 16), (rnd.choice((1, 1, 2, 3)), 16), i % 40 - 20, (0.25, 0.5, 1.0)[i % 3]))
        at += rnd.choice((0, 1, 1, 2))
    return dict(spec=spec, ppq=rnd.choice((96, 480)), ch=rnd.randrange(16), mc=36, sg=(4, 2), bpm=120.0)


def mixed_files(c, name):
    import gen_ops

    def one(r, what):
        outs, t, exp, kw, items = random_song(c, r)
        c.demand(name, dumped(c, outs, t, **kw), [((), exp)], what)
    for a, b in gen_ops.mixed_up():
        for p, d in ((a, b), (b, a)):
            c.guard(name, one, dict(spec=[(p, d, 3, 0.5)], ppq=960, ch=0, mc=36, sg=(4, 2), bpm=120.0), f'position {p}, duration {d}')
        c.guard(name, one, dict(spec=[((0, 1), a, 3, 0.5), ((0, 1), b, 4, 0.5)], ppq=960, ch=0, mc=36, sg=(4, 2), bpm=120.0), f'durations {a} and {b}')


def long_files(c, name, sizes, salt):
    import random

    def one(n, r):
        with c.budget(10 ** 8):
            outs, t, exp, kw, items = random_song(c, r)
            c.demand(name, dumped(c, outs, t, **kw), [((), exp)], f'{n} notes')
    for n in sizes:
        c.guard(name, one, n, long_spec(random.Random(f'{c.seed}.{salt}.{n}'), n))


@prop('C12')
def c12(c):
    long_files(c, 'whole file', (4700, 40, 540) if c.tier == 'quick' else (4700, 40, 300, 700, 1100), 'c12')
    random_files(c, 'whole file', 400 if c.tier == 'quick' else 4000, 'c12')
    W = c.mod('melodia.io.midi', 'MIDIWriter')

    def empty():
        st, ppq = c.int_(c.state(), 'ppq', 1, 32767)
        st, t = track(c, st)
        c.demand('file of an empty track', dumped(c, start(st), t, pulses_per_quarter=N(ppq)),
                 [((), ('y', file_of(ppq, prefix(4, 2) + [END])))], 'MIDIWriter(ppq).dumps(Track())')
    c.guard('file of an empty track', empty)

    def signature(k):
        st, n = c.int_(c.state(), 'n', 0)
        st, s = c.sig(st, n, 2 ** k)
        st, t = track(c, st, s)
        c.demand('time signature event', dumped(c, start(st), t),
                 [((Cond('le0', n - 255),), ('y', file_of(96, prefix(n, k) + [END]))), ((Cond('lt0', 255 - n),), ('exc', ('OverflowError', 'ValueError')))], f'dumps(Track((n, {2 ** k})))')
    for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 254, 255):
        c.guard('time signature event', signature, k)

    def too_fine(n, k):
        st, s = c.sig(c.state(), n, 2 ** k)
        st, t = track(c, st, s)
        c.demand('time signature event', dumped(c, start(st), t), [((), ('exc', ('OverflowError', 'ValueError')))], f'dumps(Track(({n}, 2 ** {k})))')
    for n in (0, 1, 3, 255, 256):
        for k in (256, 257, 260, 300, 511, 512, 1000):
            c.guard('time signature event', too_fine, n, k)

    def tempo():
        st, b = c.flt(c.state(), 'bpm', 4.0, 1e6)
        st, t = track(c, st)
        c.demand('tempo event', dumped(c, start(st), t, bpm=F(b)), [((), ('y', file_of(96, prefix(4, 2, b) + [END])))], 'MIDIWriter(bpm=b).dumps(Track())')
    c.guard('tempo event', tempo)

    def tempo_k(b):
        st, t = track(c, c.state())
        x = N(const(b)) if isinstance(b, int) else K(b)
        c.demand('tempo event', dumped(c, start(st), t, bpm=x), [((), ('y', file_of(96, prefix(4, 2, b) + [END])))], f'MIDIWriter(bpm={b}).dumps(Track())')
    import random
    rnd = random.Random(c.seed + 212)
    tempos = [60.0, 90, 119.99, 33.3, 250, 4.0, 3.6, 6e7, 1000.5, 4, 7, 59.9999, 3.576278686523438, 38.4, 4.8, 60000001, 59999999.5, 1e9, 1e300, float('inf')]
    for _ in range(120 if c.tier == 'quick' else 1500):
        k = rnd.randrange(1, 2 ** 24)
        tempos += [60000000 / k, rnd.randrange(36, 4000) / 10, rnd.uniform(3.58, 400), rnd.randrange(4, 1000), rnd.randrange(4000, 300000) / 1000]
    for b in tempos:
        c.guard('tempo event', tempo_k, b)

    def tempo_low(b):
        st, t = track(c, c.state())
        c.demand('tempo event', dumped(c, start(st), t, bpm=N(const(b)) if isinstance(b, int) else K(b)), [((), ('exc', ('OverflowError', 'ValueError')))], f'MIDIWriter(bpm={b}).dumps(Track())')
    for b in (1, 2, 3, 3.5, 3.57, 1.0, 0.5, 1e-3, 1e-9, 3.5762):
        c.guard('tempo event', tempo_low, b)

    def sizes(n):
        spec = [((i, 4), (1, 4), None) for i in range(n)]
        outs, t, items = song(c, c.state(), spec)
        st, ppq = None, 96
        c.demand('chunk length', dumped(c, outs, t), [((), ('y', file_of(96, body_of(items, 96))))], f'dumps(track of {n} notes)')
    for n in (1, 2, 3, 5, 8) + ((12, 16) if c.tier != 'quick' else ()):
        c.guard('chunk length', sizes, n)

    def ppqs():
        st, ppq = c.int_(c.state(), 'ppq', 1, 32767)
        st, p = c.int_(st, 'pitch', -24, 103)
        st, tn = c.tone(st, p)
        st, s = c.sig(st, 1, 4)
        st, v = c.flt(st, 'v', 0.0, 1.0)
        st, nt = c.note(st, tn, s, v)
        st, t = track(c, st)
        outs = adds(c, start(st), t, nt, T2(0, 1))
        cases = []
        for k in (1, 2, 3):
            cases.append((vlconds(ppq, k), ('y', file_of(ppq, prefix(4, 2) + [b'\0'] + on(0, p, v) + vl(ppq, k) + off(0, p) + [END]))))
        c.demand('resolution', dumped(c, outs, t, pulses_per_quarter=N(ppq)), cases, 'one quarter note, any pulses_per_quarter')
    c.guard('resolution', ppqs)

    def sink(kind):
        outs, t, items = song(c, c.state(), [((1, 4), (1, 8)), ((0, 1), (1, 2))])
        S_ = c.mod('_support', kind)
        G = c.mod('_support', 'sink_bytes')
        for o in outs:
            st, w = writer(c, o.st)
            st, f = c.one(st, S_, [])
            res = []
            for o2 in c.method(st, w, 'dump', [t, f]):
                res += [o2] if o2.exc is not None else c.run(o2.st, G, [f])
            c.demand('dump to a file', res, [((), ('y', file_of(96, body_of(items, 96))))], f'dump(track, {kind}) writes what dumps(track) returns')
    c.guard('dump to a file', sink, 'Sink')
    c.guard('dump to a file', sink, 'Pipe')
    DISK, DB = c.mod('_support', 'Disk'), c.mod('_support', 'disk_bytes')

    def disk(old, pos, times, spec):
        """a file with something in it, open somewhere"""
        outs, t, items = song(c, c.state(), spec)
        whole = file_parts(96, body_of(items, 96))
        n = ylen(whole)
        n = n if isinstance(n, int) else None
        for o in outs:
            st, w = writer(c, o.st)
            st, f = c.one(st, DISK, [K(old), N(const(pos))])
            res = [Out(st, NONE)]
            for _ in range(times):
                res = [y for x in res for y in ([x] if x.exc is not None else c.method(x.st, w, 'dump', [t, f]))]
            res = [y for x in res for y in ([x] if x.exc is not None else c.run(x.st, DB, [f]))]
            exp = [old[:pos]] + whole * times + ([] if n is None else [old[pos + n * times:]])
            if n is not None or pos == len(old):
                c.demand('dump to a file', res, [((), ('y', mkbytes(exp)))], f'file with {len(old)} bytes, at {pos}, after {times} dumps')
    for old, pos in ((b'', 0), (b'abc', 3), (b'MThd', 4), (b'x' * 200, 200), (b'x' * 200, 0), (b'x' * 200, 70), (b'MThd' + bytes(10), 14)):
        for times in (1, 2):
            for spec in ([], [((1, 4), (1, 8)), ((0, 1), (1, 2))]):
                c.guard('dump to a file', disk, old, pos, times, spec)

    def ctor():
        st, x = c.int_(c.state(), 'x')
        c.demand('pulses_per_quarter accepted', c.run(st, W, [], {'pulses_per_quarter': N(x)}),
                 [((Cond('lt0', x - 1),), EXC_V), ((Cond('lt0', 32767 - x),), EXC_V), ((Cond('le0', 1 - x), Cond('le0', x - 32767)), ('any',))], 'MIDIWriter(pulses_per_quarter=x)')
        c.demand('channel accepted', c.run(st, W, [], {'channel': N(x)}),
                 [((Cond('lt0', x),), EXC_V), ((Cond('lt0', 15 - x),), EXC_V), ((Cond('le0', -x), Cond('le0', x - 15)), ('any',))], 'MIDIWriter(channel=x)')
        for bad in (K(1.5), NONE, T([N(const(1))])):
            c.demand('middle_c accepted', c.run(c.state(), W, [], {'middle_c': bad}), [((), EXC_T)], f'MIDIWriter(middle_c={bad!r})')
    c.guard('writer parameters', ctor)


c12.opts = dict(extra=SUPPORT)


@prop('C13', extra=SUPPORT)
def c13(c):
    random_files(c, 'whole file', 400 if c.tier == 'quick' else 4000, 'c13')
    mixed_files(c, 'whole file')
    W = c.mod('melodia.io.midi', 'MIDIWriter')

    def times(which, k, ppq, odd, kk):
        """one note whose position (or duration) is unknown"""
        st, p = c.int_(c.state(), 'pitch', -24, 103)
        st, x = c.int_(st, 'x', 0)
        st, tn = c.tone(st, p)
        st, v = c.flt(st, 'v', 0.0, 1.0)
        num = x * 2 + 1 if odd else x
        st, s = c.sig(st, *((1, 4) if which == 'pos' else (num, 2 ** k)))
        st, nt = c.note(st, tn, s, v)
        st, t = track(c, st)
        m = num * 4 * ppq
        d = m * Fraction(1, 2 ** k)
        d = d if all(q.denominator == 1 for q in d.t.values()) else Poly.atom(Atom('floor', (d,)))
        st = c.assume(st, Cond('lt0', d - 2 ** (7 * kk)))
        if st is not None and kk > 1:
            st = c.assume(st, Cond('le0', 2 ** (7 * (kk - 1)) - d))
        if st is None:
            return      # no such note
        outs = adds(c, start(st), t, nt, T2(num, 2 ** k) if which == 'pos' else T2(0, 1))
        d = st.facts.norm(d)
        if which == 'pos':
            body = prefix(4, 2) + vl(d, kk) + on(0, p, v) + [vlc(ppq)] + off(0, p) + [END]
        else:
            body = prefix(4, 2) + [b'\0'] + on(0, p, v) + vl(d, kk) + off(0, p) + [END]
        c.demand(f'{which} in pulses', dumped(c, outs, t, pulses_per_quarter=N(const(ppq))),
                 [((), ('y', file_of(ppq, body)))], f'one note, {which} {num}/{2 ** k}, {ppq} pulses per quarter, {kk}-byte delta time')
    for which in ('pos', 'dur'):
        for k, ppq, odd in ((0, 96, True), (3, 96, True), (7, 96, True), (4, 1, True), (5, 480, True), (3, 7, True), (0, 1000, True), (0, 24, False)):
            for kk in (1, 2, 3, 4):
                c.guard(f'{which} in pulses', times, which, k, ppq, odd, kk)

    def reducible(pos, dur, ppq):
        outs, t, items = song(c, c.state(), [(pos, dur)])
        c.demand('times not in lowest terms', dumped(c, outs, t, pulses_per_quarter=N(const(ppq))),
                 [((), ('y', file_of(ppq, body_of(items, ppq))))], f'position {pos}, duration {dur}, {ppq} pulses per quarter')
    for pos, dur in (((0, 8), (4, 16)), ((12, 8), (0, 4)), ((6, 4), (6, 64)), ((8, 2), (1, 1)), ((1000, 16), (96, 32)), ((3, 1024), (5, 2048))):
        for ppq in (96, 5, 960):
            c.guard('times not in lowest terms', reducible, pos, dur, ppq)

    songs = [
        [((0, 1), (1, 4)), ((1, 4), (1, 4))],
        [((1, 4), (1, 4)), ((0, 1), (1, 4))],
        [((0, 1), (1, 1)), ((1, 4), (1, 8)), ((1, 2), (1, 4))],
        [((0, 1), (1, 4), 0), ((0, 1), (1, 4), 4), ((0, 1), (1, 4), 7), ((1, 4), (1, 4), 0)],
        [((0, 1), (3, 8), 3), ((1, 4), (1, 8), 3), ((3, 8), (1, 4), 3)],
        [((3, 8), (0, 4)), ((1, 8), (1, 4)), ((0, 1), (1, 8)), ((7, 16), (9, 16))],
        [((5, 1), (1, 64)), ((2, 1), (7, 2)), ((2, 2), (1, 1)), ((11, 4), (2, 8))],
        [((0, 1), (1, 2), 5), ((1, 2), (1, 2), 5), ((1, 1), (1, 2), 5)],
        [((1, 4), (1, 4), 9), ((1, 4), (1, 2), 2), ((1, 2), (0, 1), 2)],
        [((1, 3 * 0 + 32), (1, 32)), ((1, 16), (1, 64)), ((5, 64), (1, 128))],
        [((64, 1), (1, 4)), ((700, 1), (1, 4))],
    ]
    import random
    rnd = random.Random(c.seed)
    for _ in range(6 if c.tier == 'quick' else 60):
        n = rnd.randrange(2, 6)
        ps = rnd.sample(range(0, 24), n)
        songs.append([((p, 8), (rnd.randrange(0, 9), rnd.choice((2, 4, 8, 16)))) for p in ps])

    def order(spec, ppq, ch):
        outs, t, items = song(c, c.state(), spec)
        items = sorted(items, key=lambda x: (x[0], x[2].ival() if x[2].ival() is not None else 0))
        c.demand('event order', dumped(c, outs, t, pulses_per_quarter=N(const(ppq)), channel=N(const(ch))),
                 [((), ('y', file_of(ppq, body_of(items, ppq, ch))))], f'notes {[(x[0], x[1]) for x in spec]}')
    for i, s in enumerate(songs):
        c.guard('event order', order, s, (96, 24, 480, 3)[i % 4], (0, 9, 15)[i % 3])

    def channels(ch):
        outs, t, items = song(c, c.state(), [((0, 1), (1, 4))])
        c.demand('channel of the events', dumped(c, outs, t, channel=N(const(ch))), [((), ('y', file_of(96, body_of(items, 96, ch))))], f'MIDIWriter(channel={ch})')
    for ch in range(16):
        c.guard('channel of the events', channels, ch)

    def middle(kind, m):
        st, p = c.int_(c.state(), 'pitch')
        st, tn = c.tone(st, p)
        st, s = c.sig(st, 1, 4)
        st, v = c.flt(st, 'v', 0.0, 1.0)
        st, nt = c.note(st, tn, s, v)
        st, t = track(c, st)
        outs = adds(c, start(st), t, nt, T2(0, 1))
        if kind == 'sym':
            st, mc = c.int_(outs[0].st, 'mc')
            outs[0].st = st
            arg = N(mc)
        elif kind == 'tone':
            st, mc = c.int_(outs[0].st, 'mc')
            st, arg = c.tone(st, mc)
            outs[0].st = st
        else:
            mc, arg = const(m), K(kind)
        b = p + 60 - mc
        body = prefix(4, 2) + [b'\0\x90', ('b', b), velbyte(v), b'\x60\x80', ('b', b), b'\x40', END]
        c.demand('pitch of the events', dumped(c, outs, t, middle_c=arg),
                 [((Cond('le0', -b), Cond('le0', b - 127)), ('y', file_of(96, body))), ((Cond('lt0', b),), EXC_V), ((Cond('lt0', 127 - b),), EXC_V)], f'any pitch, middle_c {kind}')
    for kind, m in (('sym', None), ('tone', None), ('C4', 48), ('C3', 36), ('A-1', -3)):
        c.guard('pitch of the events', middle, kind, m)

    def default_middle():
        st, p = c.int_(c.state(), 'pitch')
        st, tn = c.tone(st, p)
        st, s = c.sig(st, 1, 4)
        st, nt = c.note(st, tn, s, 0.5)
        st, t = track(c, st)
        outs = adds(c, start(st), t, nt, T2(0, 1))
        b = p + 24
        body = prefix(4, 2) + [b'\0\x90', ('b', b), b'\x3f\x60\x80', ('b', b), b'\x40', END]
        c.demand('pitch of the events', dumped(c, outs, t),
                 [((Cond('le0', -b), Cond('le0', b - 127)), ('y', file_of(96, body))), ((Cond('lt0', b),), EXC_V), ((Cond('lt0', 127 - b),), EXC_V)], 'any pitch, default middle_c')
    c.guard('pitch of the events', default_middle)

    def velocity(v):
        outs, t, items = song(c, c.state(), [((0, 1), (1, 4), None, v)])
        c.demand('velocity of the events', dumped(c, outs, t), [((), ('y', file_of(96, body_of(items, 96))))], f'velocity {v}')
    for v in (0.0, 1.0, 0.5, 0.75, 0.999, 1 / 127, 0.0078, 64 / 127, 0.9999999999999999):
        c.guard('velocity of the events', velocity, v)


@prop('C14', extra=SUPPORT)
def c14(c):
    from check import Out
    S_ = c.mod('_support', 'Pipe')
    G = c.mod('_support', 'sink_bytes')
    EMPTY = ('y', K(b''))

    def dump(outs, t, **kw):
        """-> [(Out of dump, sink)]"""
        res = []
        for o in outs:
            if o.exc is not None:
                res.append((o, None))
                continue
            st, w = writer(c, o.st, **kw)
            st, f = c.one(st, S_, [])
            res += [(x, f) for x in c.method(st, w, 'dump', [t, f])]
        return res

    def nothing(name, outs, t, what, raises=None, track_obs=None, **kw):
        """when dump raises, nothing was written; the track stays as it was"""
        n = 0
        for o, f in dump(outs, t, **kw):
            if f is None:
                c.demand(name, [o], [((), ('any',))], what)
                continue
            if raises is not None:
                c.demand(name, [o], raises, what)
            if o.exc is not None:
                n += 1
                c.demand('nothing written when dump raises', c.run(o.st, G, [f]), [((), EMPTY)], what)
            if track_obs is not None:
                c.demand('track unchanged by dump', [Out(o.st, t)], [((), track_obs)], what)
        return n

    def observe(items, sg=SIG44):
        return ('track', sg, [item(const(1) * p, ('note', ('tone', q), ('sigv', const(1) * d), ('f', v))) for p, d, q, v in items])

    def bad_pitch(n, i):
        st, t = track(c, c.state())
        spec = [((j, 4), (1, 4)) for j in range(n)]
        nts, items = [], []
        for j, x in enumerate(spec):
            if j == i:
                st, p = c.int_(st, 'bad')
                st, tn = c.tone(st, p)
                st, s = c.sig(st, 1, 4)
                st, v = c.flt(st, 'bad.v', 0.0, 1.0)
                st, r = c.note(st, tn, s, v)
                items.append((Fraction(j, 4), Fraction(1, 4), p, v))
            else:
                st, r, it = note_(c, st, f'n{j}', *x)
                items.append(it)
            nts.append((r, x[0]))
        outs = start(st)
        for r, pos in nts:
            outs = adds(c, outs, t, r, T2(*pos))
        b = p + 24
        nothing('pitch that cannot be written', outs, t, f'note {i} of {n} out of range',
                [((Cond('le0', -b), Cond('le0', b - 127)), ('any',)), ((Cond('lt0', b),), EXC_V), ((Cond('lt0', 127 - b),), EXC_V)], observe(items))
    for n, i in ((1, 0), (2, 0), (2, 1), (3, 2), (4, 1)):
        c.guard('pitch that cannot be written', bad_pitch, n, i)

    def bad_signature():
        st, n = c.int_(c.state(), 'n', 256)
        st, s = c.sig(st, n, 4)
        outs, t, items = song(c, st, [((0, 1), (1, 4))], s)
        nothing('time signature that cannot be written', outs, t, 'nominator above 255', [((), ('exc', ('OverflowError', 'ValueError')))], observe(items, ('sig', n, const(4))))
    c.guard('time signature that cannot be written', bad_signature)

    def big_denominator(k):
        st, s = c.sig(c.state(), 1, 2 ** k)
        outs, t, items = song(c, st, [((0, 1), (1, 4))], s)
        nothing('time signature that cannot be written', outs, t, f'denominator 2**{k}', None, observe(items, ('sig', ONE, const(2 ** k))))
    for k in (255, 256, 300):
        c.guard('time signature that cannot be written', big_denominator, k)

    def bad_tempo(b):
        outs, t, items = song(c, c.state(), [((0, 1), (1, 4))])
        nothing('tempo that cannot be written', outs, t, f'bpm={b}', None, observe(items), bpm=K(b) if isinstance(b, float) else N(const(b)))
    for b in (0, 0.0, -1.0, -120, 3.0, 1e-9, float('nan'), float('inf'), 1e300, 5e-324):
        c.guard('tempo that cannot be written', bad_tempo, b)

    def any_tempo():
        outs, t, items = song(c, c.state(), [((0, 1), (1, 4))])
        st, b = c.flt(outs[0].st, 'bpm')
        outs[0].st = st
        nothing('tempo that cannot be written', outs, t, 'any bpm', None, observe(items), bpm=F(b))
    c.guard('tempo that cannot be written', any_tempo)

    def fine(spec):
        outs, t, items = song(c, c.state(), spec)
        for o, f in dump(outs, t):
            c.demand('written completely', [o] if o.exc is not None else c.run(o.st, G, [f]), [((), ('y', file_of(96, body_of(items, 96))))], f'dump of {len(spec)} notes')
            c.demand('track unchanged by dump', [Out(o.st, t)], [((), observe(items))], f'dump of {len(spec)} notes')
    for s in ([], [((1, 2), (1, 4)), ((0, 1), (1, 8))], [((3, 4), (1, 4)), ((2, 4), (1, 4)), ((1, 4), (1, 4))]):
        c.guard('written completely', fine, s)

    import random
    import gen_hist

    def generated(i, size=None):
        """any history of a track, written with any settings: all or nothing, and the track stays as it was"""
        rnd = random.Random(f'{c.seed}.c14.{i}')
        sg = rnd.choice(((4, 4), (4, 4), (3, 8), (7, 16), (255, 1), (256, 1), (1, 1), (0, 4), (1000, 64)))
        st, s = c.sig(c.state(), *sg)
        st, t = c.one(st, c.Track, [s])
        h = gen_hist.a_history(rnd, size or rnd.choice((1, 2, 3, 5, 8, 12)), rnd.random() < 0.5)
        if rnd.random() < 0.4 or size:
            h.insert(rnd.randrange(len(h) + 1), ('add', 'one', [(rnd.choice((-25, 104, 104, 300, 1000, -1000)), (1, 4), 0.5)], (rnd.choice((0, 1, 2, 5)), 4), 'tuple'))
        items, end = gen_hist.model(h)
        bad = any(not 0 <= 24 + x[1] <= 127 for x in items) or sg[0] > 255
        kw = {'pulses_per_quarter': N(const(rnd.choice((1, 2, 3, 5, 24, 96, 480, 4096, 32767))))}
        bpm = rnd.choice((120.0, 120.0, 60, 1.0, 0.0, -5.0, 1e-3, 1e9, float('nan')))
        if rnd.random() < 0.5:
            kw['bpm'] = K(bpm) if isinstance(bpm, float) else N(const(bpm))
        if rnd.random() < 0.3:
            kw['channel'] = N(const(rnd.randrange(16)))
        what = f'{sg}, {kw}: {gen_hist.text(h)}'
        before = gen_hist.expected(('sig', const(sg[0]), const(sg[1])), items)
        c.I.budget = 10 ** 8 if size else 10 ** 6
        for twice in (False, True):
            for o in gen_hist.apply(c, st, t, h):
                for o, f in dump([o], t, **kw):
                    if twice and f is not None:
                        (o, f), *_ = dump([Out(o.exc.st if o.exc is not None else o.st, NONE)], t, **kw)
                    if f is None:
                        c.demand('track unchanged by dump', [o], [((), ('any',))], what)
                        continue
                    st2 = o.exc.st if o.exc is not None else o.st
                    if bad:
                        c.demand('what cannot be written', [o], [((), ('exc', ('ValueError', 'OverflowError')))], what)
                    if o.exc is not None:
                        c.demand('nothing written when dump raises', c.run(st2, G, [f]), [((), EMPTY)], what)
                    c.demand('track unchanged by dump', [Out(st2, t)], [((), before)], what)
                    c.demand('track unchanged by dump', c.attr(st2, t, 'length'), [((), ('sigv', const(1) * end))], what)
    for i in range(120 if c.tier == 'quick' else 1500):
        c.guard('track unchanged by dump', generated, i)
    for i, n in enumerate((40, 70, 140) if c.tier == 'quick' else (40, 70, 140, 280, 560)):
        c.guard('track unchanged by dump', generated, f'long{i}', n)

    def failing(k):
        """the file raises at its k-th write: the error reaches the caller"""
        outs, t, items = song(c, c.state(), [((1, 2), (1, 4)), ((0, 1), (1, 8))])
        st, w = writer(c, outs[0].st)
        st, f = c.one(st, S_, [N(const(k))])
        for o in c.method(st, w, 'dump', [t, f]):
            if k == 0:
                c.demand('error of the file reaches the caller', [o], [((), ('exc', ('OSError',)))], 'file.write raises OSError')
            else:
                c.demand('error of the file reaches the caller', [o], [((), ('either', [('exc', ('OSError',)), ('c', None)]))], 'file.write raises OSError')
            c.demand('track unchanged by dump', [Out(o.st, t)], [((), observe(items))], 'file.write raises OSError')
    for k in (0, 1):
        c.guard('error of the file reaches the caller', failing, k)
