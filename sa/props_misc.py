"""Chords, velocity randomisation, immutability, textual round trips."""
import ast as _ast
from props import prop
from props_core import EXC_V, v_of
from props_track import *
from props_track import hists
import gen_hist
import gen_ops
from oblig import *
from check import Out
from poly import sym, free_atoms, ev, NoValue
from facts import Cond

CHORDS = [
    ('major maj', '4 7'), ('minor min', '3 7'), ('augmented aug', '4 8'), ('diminished dim', '3 6'),
    ('suspended4 sus4', '5 7'), ('suspended2 sus2', '2 7'),
    ('major7 maj7', '4 7 11'), ('minor7 min7', '3 7 10'), ('dominant7 dom7', '4 7 10'), ('dominant7b5 dom7b5', '4 6 10'),
    ('diminished7 dim7', '3 6 9'), ('minor7b5 min7b5', '3 6 10'), ('diminished_major7', '3 6 11'), ('minor_major7', '3 7 11'),
    ('augmented_major7 major7s5 maj7s5', '4 8 11'), ('augmented_minor7 augmented7 aug7', '4 8 10'),
    ('major9 maj9', '4 7 11 14'), ('minor9 min9', '3 7 10 14'), ('dominant9 dom9', '4 7 10 14'), ('dominant_minor9 min7b9', '4 7 10 13'),
    ('minor69 min69', '4 7 9 14'), ('added9 add9', '4 14'),
    ('major11 maj11', '4 7 11 14 17'), ('minor11 min11', '3 7 10 14 17'), ('dominant11 dom11', '4 7 10 14 17'),
]
D14 = ('sig', ONE, const(4))


@prop('C20')
def c20(c, module='melodia.music.chord'):
    for names, iv in CHORDS:
        iv = [0] + [int(x) for x in iv.split()]
        for name in names.split():
            f = c.mod(module, name)

            def tones(p, d, v):
                return ('seq', 'tuple', [('note', ('tone', p + i), d, ('f', v)) for i in iv])

            def from_note():
                st, nt, o = c.symnote(c.state(), 'a')
                p = o[1][1]
                c.demand(f'chord {name} on a note', c.run(st, f, [nt]), [((), tones(p, o[2], o[3][1]))], f'{name}(note)')
                st, s, n, d = c.symsig(st, 'd')
                st, v = c.flt(st, 'v', 0.0, 1.0)
                c.demand(f'chord {name} on a note', c.run(st, f, [nt, s]), [((), tones(p, ('sig', n, d), o[3][1]))], f'{name}(note, duration)')
                c.demand(f'chord {name} on a note', c.run(st, f, [nt], {'velocity': F(v)}), [((), tones(p, o[2], v))], f'{name}(note, velocity=v)')
                c.demand(f'chord {name} on a note', c.run(st, f, [nt, T2(n, d), F(v)]), [((), tones(p, ('sig', n, d), v))], f'{name}(note, (n, d), v)')
                c.demand(f'chord {name} on a note', c.run(st, f, [nt], {'velocity': K(0.0), 'duration': T2(0, 2)}), [((), tones(p, ('sig', ZERO, const(2)), 0.0))], f'{name}(note, (0, 2), 0.0)')
            c.guard(f'chord {name} on a note', from_note)

            def from_tone():
                st, p = c.int_(c.state(), 'p')
                st, t = c.tone(st, p)
                for b, what in ((t, 'Tone(p)'), (N(p), 'p')):
                    c.demand(f'chord {name}', c.run(st, f, [b]), [((), tones(p, D14, 0.75))], f'{name}({what})')
                st, s, n, d = c.symsig(st, 'd')
                st, v = c.flt(st, 'v', 0.0, 1.0)
                for b, what in ((t, 'Tone(p)'), (N(p), 'p')):
                    c.demand(f'chord {name}', c.run(st, f, [b, s, F(v)]), [((), tones(p, ('sig', n, d), v))], f'{name}({what}, s, v)')
                    c.demand(f'chord {name}', c.run(st, f, [b], {'velocity': K(0.0)}), [((), tones(p, D14, 0.0))], f'{name}({what}, velocity=0.0)')
            c.guard(f'chord {name}', from_tone)
            for x, val in (('C4', 48), ('F#3', 42), ('Bb-1', -2)):
                c.guard(f'chord {name} on notation', lambda: c.demand(f'chord {name} on notation', c.run(c.state(), f, [K(x)]), [((), tones(const(val), D14, 0.75))], f'{name}({x!r})'))
            for x in ('c4', 'h', '', 'C4 ', ' C4', 'c', 'H4', 'C4\n', '60', 'db3', 'C 4', 'maj', 'Am', 'b', 'bb4', 'C#4#', 'C-'):
                c.guard(f'chord {name} on no notation', lambda: c.demand(f'chord {name} on no notation', c.run(c.state(), f, [K(x)]), [((), EXC_V)], f'{name}({x!r})'))

            def wrong():
                st, s = c.sig(c.state(), 3, 4)
                st, t = track(c, st)
                st = st.copy()
                l = c.I.new(st, Lst('list', [El(N(60))]))
                for x, w in ((s, 'a signature'), (t, 'a track'), (l, '[60]'), (K(b'C4'), "b'C4'"), (K(60.0), '60.0'), (T([N(3), N(4)]), '(3, 4)')):
                    c.demand(f'chord {name} on a base of a wrong type', c.run(st, f, [x]), [((), EXC_V)], f'{name}({w})')
                    c.demand(f'chord {name} on a base of a wrong type', c.run(st, f, [x, T2(1, 4), K(0.5)]), [((), EXC_V)], f'{name}({w}, (1, 4), 0.5)')
            c.guard(f'chord {name} on a base of a wrong type', wrong)

            def given():
                import random
                rnd = random.Random(c.seed * 7 + len(name))
                for _ in range(6 if c.tier == 'quick' else 60):
                    p = rnd.choice((-500, -13, -1, 0, 11, 12, 59, 60, 110, 120, 126, 127, 128, 300))
                    n, d, v = rnd.choice((0, 1, 3, 7)), 2 ** rnd.randrange(0, 8), rnd.choice((0.0, 0.1, 0.5, 0.75, 1.0))
                    n2, d2, v2 = rnd.choice((0, 1, 3, 7)), 2 ** rnd.randrange(0, 8), rnd.choice((0.0, 0.1, 0.5, 0.75, 1.0))
                    st, t = c.tone(c.state(), p)
                    st, s = c.sig(st, n, d)
                    st, b = c.note(st, t, s, v)
                    kw = {}
                    if rnd.random() < 0.5:
                        kw['duration'] = T2(n2, d2)
                    if rnd.random() < 0.5:
                        kw['velocity'] = K(v2)
                    dd = ('sig', const(n2), const(d2)) if 'duration' in kw else ('sig', const(n), const(d))
                    w = f'{name}(Note({p}, ({n}, {d}), {v}), {", ".join(kw)})'
                    c.demand(f'chord {name} on a note', c.run(st, f, [b], kw), [((), tones(const(p), dd, v2 if 'velocity' in kw else v))], w)
                    dd = dd if 'duration' in kw else D14
                    c.demand(f'chord {name}', c.run(st, f, [rnd.choice((t, N(p)))], kw), [((), tones(const(p), dd, v2 if 'velocity' in kw else 0.75))], w.replace('Note', 'Tone'))
            c.guard(f'chord {name}', given)
            for x in (NONE, K(1.5), T([N(1)])):
                c.guard(f'chord {name} on nothing', lambda: c.demand(f'chord {name} on a base of a wrong type', c.run(c.state(), f, [x]), [((), EXC_V)], f'{name}({x!r})'))
    gen_ops.sequences(c, 'chords in sequence', 'c20.ops', (('chord',), ('chord', 'note', 'badtone'), ('chord', 'parse', 'ntrans', 'ndur', 'nvel'), ('chord', 'nder', 'trans')), 600, 6000)


GEN = [('argparse', __file__.replace('props_misc.py', 'support_gen.py')), ('_generator', '$REPO/scripts/generate_chords.py')]


@prop('C26', extra=GEN)
def c26(c):
    from check import Check
    name, where = 'generated module', None
    c.scen_budget = c.I.budget = 4000000
    st = c.state()
    texts = []
    for o in c.run(st, c.mod('_generator', 'main'), []):
        where = o.exc.loc if o.exc is not None else c.P.modules['_generator'].path + ' (main)'
        if o.exc is not None or o.st.imp:
            if o.exc is not None and not o.exc.st.imp:
                c.record(name, REFUTED, f'the generator raises {o.exc.name}', where, 'main()', dict(path=[], point={}, got=o.exc.name, expected='a module'))
            else:
                c.record(name, UNDECIDED, 'imprecise path of the generator', where, 'main()')
            return
        for t in c.run(o.st, c.mod('argparse', 'written'), []):
            texts.append(t)
    if len(texts) != 1 or texts[0].exc is not None or not isinstance(texts[0].v, K) or not isinstance(texts[0].v.v, str):
        c.record(name, UNDECIDED, 'the text of the generated module is not known', where, 'main()')
        return
    src = texts[0].v.v
    try:
        _ast.parse(src)
    except SyntaxError as e:
        c.record(name, REFUTED, f'the generated text is no module: {e}', where, 'main()', dict(path=[], point={}, got=str(e), expected='a module'))
        return
    try:
        c2 = Check(c.pid, c.tier, c.seed, sources=[('melodia.music._generated', src)])
    except AnalysisBroken as e:
        c.record(name, REFUTED, f'the generated module: {e}', where, 'main()', dict(path=[], point={}, got=str(e), expected='a module that can be imported'))
        return
    have = c2.I.base.frames.get('mod:melodia.music._generated') or {}
    want = [n for names, iv in CHORDS for n in names.split()]
    if c.shard[0] == 0:
        for n in want:
            if n not in have:
                c.record(name, REFUTED, f'the generated module has no {n}', where, 'main()', dict(path=[], point={}, got='nothing', expected=n))
            else:
                c.record(name, PROVED, '', where, f'{n} is generated')
    if any(n not in have for n in want):
        return
    c2.results, c2.shard, c2.t0 = c.results, c.shard, c.t0
    rec = c2.record
    c2.record = lambda n, s, why, w, *a: rec(n, s, why, f'{where} -> {w}', *a)
    c20(c2, 'melodia.music._generated')
    c.scen, c.paths = c.scen + c2.scen, c.paths + c2.paths


@prop('C21')
def c21(c):
    f = c.mod('melodia.processing.track', 'randomize_velocities')

    def velocity_in(lo, hi):
        """predicate observation: a float between two terms"""
        def ok(fa, g):
            if g[0] not in ('f', 'i', 'c'):
                return False
            return fa.decide(Cond('fle', lo, g[1])) is True and fa.decide(Cond('fle', g[1], hi)) is True

        def bad(g, env):
            x = fnum(g[1], env)
            return not (fnum(lo, env) <= x <= fnum(hi, env))
        return ('pred', ok, bad, f'a velocity in [{lo}, {hi}]')

    def build(st, n, same=False):
        st, s, sn, sd = c.symsig(st, 'sig', 3)
        st, t = track(c, st, s)
        items = []
        nts = []
        for i in range(n):
            st, a, oa, da = simple(c, st, f'a{i}', k=2 + i, n=i if n > 2 or same else None, pitch=None)
            nts.append((a, oa))
        outs = start(st)
        for i, (a, oa) in enumerate(nts):
            pos = 0 if same else i
            outs = adds(c, outs, t, a, T2(pos, 8))
            items.append((const(pos) * Fraction(1, 8), oa))
        return outs, t, ('sig', sn, sd), items

    def run(n, same, params):
        outs, t, sg, items = build(c.state(), n, same)
        for o in outs:
            if o.exc is not None:
                c.demand('randomised track', [o], [((), ('any',))])
                continue
            st = o.st
            if params:
                st, lo = c.flt(st, 'minimum', 0.0, 1.0)
                st, hi = c.flt(st, 'maximum', 0.0, 1.0)
                st, mean = c.flt(st, 'mean', 0.0, 1.0)
                st, var = c.flt(st, 'variance', 0.0, 100.0)
                st = c.assume(st, Cond('fle', lo, hi))
                args = [t, F(lo), F(hi), F(mean), F(var)]
            else:
                lo, hi, args = 0.5, 1.0, [t]
            exp = ('track', sg, [item(p, ('note', o[1], o[2], velocity_in(lo, hi))) for p, o in items])
            outs2 = c.run(st, f, args)
            c.demand('randomised track', outs2, [((), exp)], f'randomize_velocities of {n} notes')
            was = ('track', sg, [item(p, o) for p, o in items])
            c.demand('input track unchanged', [x if x.exc is not None else Out(x.st, t) for x in outs2], [((), was)], f'the input after randomize_velocities of {n} notes')
            later = []
            for x in outs2:
                if x.exc is None:
                    s, a, oa, da = simple(c, x.st, 'later', k=1, n=1, pitch=None)
                    later += [y if y.exc is not None else Out(y.st, t) for y in adds(c, [Out(s, NONE)], x.v, a, T2(9, 1))]
            c.demand('the result is a new track', later, [((), was)], f'the input after a note was added to the result of randomize_velocities of {n} notes')
    for n in (0, 1, 2, 3):
        c.guard('randomised track', run, n, False, True)
    c.guard('randomised track', run, 2, False, False)
    c.guard('randomised track', run, 2, True, True)

    def bad(name, which):
        outs, t, sg, items = build(c.state(), 1)
        st = outs[0].st
        d = dict(minimum=0.25, maximum=0.75, mean=0.5, variance=0.01)
        args = {}
        conds = []
        for k, v in d.items():
            args[k] = K(v)
        if which in ('low', 'high'):
            st, x = c.flt(st, 'x')
            st = c.assume(st, Cond('flt', x, 0.0) if which == 'low' else Cond('flt', 1.0, x))
            args[name] = F(x)
        else:
            args[name] = K(float(which))
        c.demand(f'{name} out of range', c.run(st, f, [t], args), [((), EXC_V)], f'{name} {which}')
    def crossed(lo, hi, mean, var, n):
        outs, t, sg, items = build(c.state(), n)
        c.demand('accepted parameters', [x if x.exc is not None else Out(x.st, NONE) for x in c.run(outs[0].st, f, [t] + [K(x) if isinstance(x, float) else N(x) for x in (lo, hi, mean, var)])],
                 [((), ('c', None))], f'randomize_velocities of {n} notes, minimum {lo}, maximum {hi}, mean {mean}, variance {var}')
    for n in (0, 2):
        for p4 in ((0.75, 0.5, 0.5, 0.01), (1.0, 0.0, 0.5, 1.0), (1, 0, 1, 0), (0, 1, 0, 1), (0, 0, 0, 0), (1, 1, 1, 1000), (0.5, 0.5, 0.75, 0.1), (0.25, 0.75, 0.0, 0.0), (0.25, 0.75, 1.0, 1e9),
                   (0.0, 1.0, 0.5, float('inf')), (0.9, 0.1, 0.0, 1e-300), (0.0, 0.0, 1.0, 5.0), (-0.0, 1.0, -0.0, -0.0)):
            c.guard('accepted parameters', crossed, *p4, n)
    for nm in ('minimum', 'maximum', 'mean'):
        for w in ('low', 'high', '-0.001', '1.001', '-1', 'nan', 'inf'):
            c.guard(f'{nm} out of range', bad, nm, w)
    for w in ('low', '-0.001', '-1', 'nan'):
        c.guard('variance out of range', bad, 'variance', w)

    def edge(vals):
        outs, t, sg, items = build(c.state(), 1)
        lo, hi, mean, var = vals
        c.demand('accepted parameters', c.run(outs[0].st, f, [t, K(lo), K(hi), K(mean), K(var)]),
                 [((), ('track', sg, [item(p, ('note', o[1], o[2], velocity_in(lo, hi))) for p, o in items]))], f'parameters {vals}')
    for v in ((0.0, 1.0, 0.5, 0.01), (0.0, 0.0, 0.0, 0.0), (1.0, 1.0, 1.0, 0.0), (0.5, 0.5, 0.0, 4.0), (0.25, 0.5, 1.0, 0.0)):
        c.guard('accepted parameters', edge, v)

    def history(h, sg, i):
        import random
        rnd = random.Random(i)
        st, t = track(c, c.state(), T2(*sg))
        lo = rnd.choice((0.0, 0.25, 0.5, 0.9))
        hi = rnd.choice([x for x in (0.1, 0.25, 0.5, 0.9, 1.0) if x >= lo])
        args = {'minimum': K(lo), 'maximum': K(hi), 'mean': K(rnd.choice((0.0, 0.3, 0.75, 1.0))), 'variance': K(rnd.choice((0.0, 0.01, 1.0)))}
        if rnd.random() < 0.3:
            lo, hi, args = 0.5, 1.0, {}
        items, end = gen_hist.model(h)
        ob = ('sig', const(sg[0]), const(sg[1]))
        new = [item(const(1) * p, ('note', ('tone', const(q)), ('sigv', const(1) * d), velocity_in(lo, hi))) for p, q, d, v in items]
        for o in gen_hist.apply(c, st, t, h):
            if o.exc is not None:
                c.demand('randomised history', [o], [((), ('any',))], gen_hist.text(h))
                continue
            outs = c.run(o.st, f, [t], args)
            c.demand('randomised history', outs, [((), ('track', ob, new))], f'randomize_velocities(t, {lo}, {hi}) after {gen_hist.text(h)}')
            c.demand('input track unchanged', [x if x.exc is not None else type(x)(x.st, t) for x in outs], [((), gen_hist.expected(ob, items))], 'randomize_velocities(t), t: ' + gen_hist.text(h))

    def given(h, sg, i):
        """many notes; the normal deviates are given"""
        import random
        import math
        rnd = random.Random(f'{c.seed}.given.{i}')
        st, t = track(c, c.state(), T2(*sg))
        lo, hi = rnd.choice(((0.5, 1.0), (0.0, 1.0), (0.25, 0.5), (0.0, 0.9)))
        mean, var = rnd.choice((0.25, 0.75, 0.5)), rnd.choice((0.01, 0.25, 1.0))
        args = {'minimum': K(lo), 'maximum': K(hi), 'mean': K(mean), 'variance': K(var)}
        if i % 3 == 0:
            lo, hi, mean, var, args = 0.5, 1.0, 0.75, 0.01, {}
        drawn = []

        def draws(name, a):
            if len(a) != 2 or None in a or name not in ('gauss', 'normalvariate'):
                drawn.append(None)
                return None
            drawn.append(rnd.choice((rnd.gauss(0, 1), rnd.gauss(0, 1), rnd.gauss(0, 1), 30.0, -30.0, 0.0)))
            return a[0] + a[1] * drawn[-1]
        items, end = gen_hist.model(h)
        ob = ('sig', const(sg[0]), const(sg[1]))
        for o in gen_hist.apply(c, st, t, h):
            del drawn[:]
            c.I.draws = draws
            what = f'randomize_velocities(t, {lo}, {hi}, {mean}, {var}) after {gen_hist.text(h)}'
            outs = c.run(o.st, f, [t], args) if o.exc is None else [o]
            c.I.draws = None
            new = [item(const(1) * p, ('note', ('tone', const(q)), ('sigv', const(1) * d), velocity_in(lo, hi))) for p, q, d, v in items]
            c.demand('randomised history', outs, [((), ('track', ob, new))], what)
            if len(drawn) == len(items) and None not in drawn and len(outs) == 1 and outs[0].exc is None:
                want, flip = (sorted(max(lo, min(hi, mean + sign * math.sqrt(var) * x)) for x in drawn) for sign in (1, -1))
                for s, got, where in c.observed(outs[0]):
                    vels = [n[3][1] for q, n in got[2]] if got[0] == 'trk' else []
                    vels = [x.v if isinstance(x, K) else x for x in vels]
                    if len(vels) == len(items) and all(isinstance(x, (int, float)) for x in vels) and all(any(abs(x - y) > 1e-9 for x, y in zip(sorted(vels), w)) for w in (want, flip)):
                        c.record('every note its own draw', REFUTED, 'the velocities are not the clamped draws', where, what, dict(path=[], point={}, got=str(sorted(vels))[:300], expected=str(want)[:300]))
                    else:
                        c.record('every note its own draw', PROVED, '', where, what)
    for i, (h, sg) in enumerate(hists(c, 60, 600, 22)):
        with c.budget(10 ** 7):
            c.guard('randomised history', given, h, sg, i)
    for i, n in enumerate((40, 120) if c.tier == 'quick' else (40, 80, 120, 200, 400)):
        import random
        with c.budget(10 ** 8):
            c.guard('randomised history', given, gen_hist.a_history(random.Random(f'{c.seed}.long.{n}'), n, i % 2), (6, 8), i)
    for i, (h, sg) in enumerate(x for x in hists(c, 120, 1200, 21) if len(gen_hist.model(x[0])[0]) <= 3):
        c.guard('randomised history', history, h, sg, i)


# ------------------------------------------------------------------ text
def parse_text(c, st, v):
    """evaluate a text made of constants and formatted numbers as an expression over the public classes -> [Out]"""
    from check import Out
    parts = [v.v] if isinstance(v, K) else list(v.parts)
    text, vals = '', {}
    for p in parts:
        if isinstance(p, str):
            text += p
            continue
        if p[0] != 'fmt' or not isinstance(p[1], (N, F)):
            return [Out(st, U('text of ' + str(p[0])))]
        x, spec = p[1], p[-1]
        plain = spec in ('', 'repr', 'r', 's', 'str', 'd')
        if isinstance(x, F) and not plain:
            x = F(Atom('ffmt', (x.a, spec), 'float'))
        elif isinstance(x, N) and not plain:
            x = N(Poly.atom(Atom('ifmt', (x.p, spec), 'int')))
        nm = f'_v{len(vals)}_'
        vals[nm] = x
        text += nm
    bad = [Out(st, K('text is no expression: ' + text))]
    try:
        e = _ast.parse(text.strip(), mode='eval').body
    except (SyntaxError, ValueError):
        return bad
    names = {'Signature': c.Signature, 'Tone': c.Tone, 'Note': c.Note, 'Track': c.Track}

    def go(e, st):
        if isinstance(e, _ast.Constant):
            return [Out(st, N(const(e.value)) if isinstance(e.value, int) and not isinstance(e.value, bool) else K(e.value))]
        if isinstance(e, _ast.Name):
            if e.id in vals:
                return [Out(st, vals[e.id])]
            if e.id in names:
                return [Out(st, names[e.id])]
            return [Out(st, K('unknown name ' + e.id))]
        if isinstance(e, _ast.UnaryOp) and isinstance(e.op, _ast.USub):
            return [o if o.exc is not None else Out(o.st, N(-o.v.p)) if isinstance(o.v, N) else Out(o.st, K(-o.v.v)) for o in go(e.operand, st)]
        if isinstance(e, (_ast.Tuple, _ast.List)):
            outs = seq(e.elts, st)
            res = []
            for o, items in outs:
                if o is not None and o.exc is not None:
                    res.append(o)
                elif isinstance(e, _ast.Tuple):
                    res.append(Out(o.st, T(items)))
                else:
                    s, r = lst(c, o.st, items)
                    res.append(Out(s, r))
            return res
        if isinstance(e, _ast.Call):
            res = []
            for f in go(e.func, st):
                for o, items in seq(e.args + [k.value for k in e.keywords], f.st):
                    if o.exc is not None:
                        res.append(o)
                    elif isinstance(f.v, K):
                        res.append(f)
                    else:
                        n = len(e.args)
                        res += c.run(o.st, f.v, items[:n], {k.arg: x for k, x in zip(e.keywords, items[n:])})
            return res
        return [Out(st, U('text: ' + type(e).__name__))]

    def seq(es, st):
        outs = [(Out(st, NONE), [])]
        for x in es:
            nx = []
            for o, items in outs:
                if o.exc is not None:
                    nx.append((o, items))
                    continue
                for r in go(x, o.st):
                    nx.append((r, items + [r.v]))
            outs = nx
        return outs
    return go(e, st)


def rands(x, out):
    """the random draws in a term or condition"""
    if isinstance(x, Cond):
        x = x.args
    if isinstance(x, (Poly, Atom)):
        for a in free_atoms(x).values():
            if a.kind in ('rand', 'randi'):
                out[a.key] = a
                for y in a.args:
                    rands(y, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            rands(y, out)
    return out


def affine(t):
    if isinstance(t, Atom) and t.kind in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
        return all(affine(x) for x in t.args)
    return not isinstance(t, Atom) or t.kind in ('rand', 'fconst')


@prop('C24')
def c24(c):
    import itertools
    import random
    import math
    f = c.mod('melodia.processing.track', 'randomize_velocities')

    def run(notes, lo, hi, mean, var, zs, default=False):
        name = 'distribution of the velocities'
        st, t = track(c, c.state())
        outs = start(st)
        for i, (p, d, v, pos) in enumerate(notes):
            s, nt = gen_hist.mknote(c, outs[0].st, p, d, v)
            outs[0].st = s
            outs = adds(c, outs, t, nt, T2(*pos))
        what = 'randomize_velocities(t%s) of %d notes' % ('' if default else f', {lo}, {hi}, {mean}, {var}', len(notes))
        c.I.events = []
        args = [] if default else [K(lo), K(hi), K(mean), K(var)]
        paths = []
        for o in c.run(outs[0].st, f, [t] + args):
            for s, got, where in c.observed(o):
                if s.imp or got[0] != 'trk' or has_unknown(got):
                    return c.record(name, UNDECIDED, 'imprecise path' if s.imp else 'no track: ' + str(got)[:100], where, what)
                vels = [n[3][1] for q, n in got[2]]
                at = {}
                rands([vels, list(s.facts.log)], at)
                at = sorted(at.values(), key=lambda a: a.args[2])
                for v in vels:
                    own = list(rands(v, {}).values())
                    if len(own) == 1 and own[0].kind == 'rand' and own[0].args[0] in ('random', 'uniform', 'triangular', 'betavariate') and affine(v):
                        return c.record(name, REFUTED, f'the velocity is drawn with random.{own[0].args[0]}', where, what,
                                        dict(path=[showc(x) for x in s.facts.log], point={}, got=show(v)[:200], expected='a normally distributed draw'))
                if any(a.kind != 'rand' or a.args[0] not in ('gauss', 'normalvariate') for a in at):
                    return c.record(name, UNDECIDED, 'another kind of random draw', where, what)
                paths.append((s, vels, at, where))
        c.I.diverge = []
        fixed = [e for e in c.I.events if e[0] == 'seeded']
        if fixed and paths:
            return c.record(name, REFUTED, f'{fixed[0][1]} fixes the outcome of the draws', fixed[0][2], what,
                            dict(path=[], point={}, got='the same velocities in every call', expected='independent draws'))
        if not paths:
            return c.record(name, UNDECIDED, 'no path reached the obligation', None, what)
        std, n = math.sqrt(var), len(notes)
        keys = sorted((Fraction(*pos), p, Fraction(*d)) for p, d, v, pos in notes)
        m = max(len(p[2]) for p in paths)
        hyps = [(pi, sg) for pi in itertools.permutations(range(m), n) for sg in (1, -1)] if math.perm(m, n) <= 5000 else []
        last = None
        rest = random.Random('more draws')
        more = [rest.gauss(0, 1) for _ in range(200)]
        for z in zs:
            z = list(z) + more
            feasible = []
            for s, vels, at, where in paths:
                if len(at) > len(z):
                    continue
                try:
                    env = {}
                    for j, a in enumerate(at):
                        env[a.key] = ev(a.args[3], env) + z[j] * ev(a.args[4], env)
                    if all(holds(x, env) for x in s.facts.log):
                        feasible.append(([float(ev(v, env)) for v in vels], where))
                except (NoValue, OverflowError):
                    return c.record(name, UNDECIDED, 'no value', where, what)
            if len(feasible) != 1:
                return c.record(name, UNDECIDED, f'{len(feasible)} paths at one point', None, what)
            got, where = feasible[0]
            want = lambda pi, sg: [max(lo, min(hi, mean + sg * std * z[k])) for k in pi]
            # notes that agree in all but the velocity are ordered by it
            order = lambda vs: [v for k, v in sorted(zip(keys, vs))]
            new = [h for h in hyps if all(abs(x - y) <= 1e-9 for x, y in zip(order(got), order(want(*h))))]
            if not new:
                if math.perm(m, n) > 5000:
                    return c.record(name, UNDECIDED, 'too many draws', where, what)
                exp = f'a draw of mean {mean} and variance {var} of its own for every note' if m < n else str(want(tuple(range(n)), 1))
                return c.record(name, REFUTED, f'got {got} expected {exp}' + (f' ({m} draws)' if m < n else ''), where, what,
                                dict(path=[], point={f'draw {j}': str(x) for j, x in enumerate(z[:max(m, 1)])}, got=str(got), expected=exp))
            hyps = new
        c.record(name, PROVED, '', where, what)

    N3 = ((0, (1, 4), 0.5, (0, 1)), (5, (3, 8), 0.0, (1, 4)), (7, (0, 1), 1.0, (1, 2)))
    S3 = ((4, (1, 4), 0.75, (1, 4)), (4, (1, 4), 0.75, (1, 4)), (9, (1, 8), 0.2, (1, 4)))
    pts = [(0.0, 0.0, 0.0, 0.0, 0.0), (0.1, 0.3, -0.2, 0.4, 0.15), (1.0, -1.0, 0.5, 0.25, -0.3), (-0.7, 0.9, 1.3, 0.2, 0.6), (2.5, -3.0, 0.4, 1.0, 1.1), (-6.0, 7.0, 40.0, 3.0, 2.0),
           (30.0, -20.0, -9.0, 4.0, 5.0)]
    for notes in (N3[:1], N3[1:2], N3[2:], N3[:2], N3, S3[:2], S3, S3[1:]):
        c.guard('distribution of the velocities', run, notes, 0.5, 1.0, 0.75, 0.01, pts, True)
        for lo, hi, mean, var in ((0.5, 1.0, 0.75, 0.01), (0.0, 1.0, 0.5, 0.04), (0.25, 0.75, 0.5, 0.0001), (0.1, 0.9, 0.0, 0.25), (0.0, 1.0, 1.0, 1.0), (0.2, 0.4, 0.9, 0.01),
                                  (0.0, 0.9, 0.3, 1e-6), (0.6, 0.6, 0.5, 2.0), (0.0, 1.0, 0.2, 4.0), (0.0, 1.0, 0.4, 0.0), (0.5, 1.0, 0.25, 0.0), (0.0, 0.5, 0.75, 0.0)):
            if var == 0:
                # a distribution without variance is its mean; no draw is needed
                def still():
                    st, t = track(c, c.state())
                    outs = start(st)
                    for p, d, v, pos in notes:
                        s, nt = gen_hist.mknote(c, outs[0].st, p, d, v)
                        outs[0].st = s
                        outs = adds(c, outs, t, nt, T2(*pos))
                    m = max(lo, min(hi, mean))
                    exp = ('track', ('any',), [item(const(1) * Fraction(*pos), ('note', ('tone', const(p)), ('sigv', const(1) * Fraction(*d)), ('f', m))) for p, d, v, pos in notes])
                    c.demand('velocities without variance', c.run(outs[0].st, f, [t, K(lo), K(hi), K(mean), K(var)]), [((), exp)], f'randomize_velocities(t, {lo}, {hi}, {mean}, 0)')
                c.guard('velocities without variance', still)
            else:
                c.guard('distribution of the velocities', run, notes, lo, hi, mean, var, pts)


def exact(o):
    """velocities must come back exactly"""
    if o[0] == 'note':
        return ('note', o[1], o[2], ('fx', o[3][1]))
    return o


@prop('C11')
def c11(c):
    def check(name, st, v, exp, what):
        res = []
        for o in c.op(st, 'repr', v):
            if o.exc is not None or not isinstance(o.v, (K, S)):
                res.append(o)
            else:
                res += parse_text(c, o.st, o.v)
        c.demand(name, res, [((), exp)], what)

    def sig():
        st, s, n, d = c.symsig(c.state(), 's')
        check('signature text', st, s, ('sig', n, d), 'eval(repr(Signature(n, 2**k)))')
    c.guard('signature text', sig)

    def tone():
        st, p = c.int_(c.state(), 'p')
        st, t = c.tone(st, p)
        check('tone text', st, t, ('tone', p), 'eval(repr(Tone(p)))')
    c.guard('tone text', tone)

    def note():
        st, nt, o = c.symnote(c.state(), 'a')
        check('note text', st, nt, exact(o), 'eval(repr(Note(p, s, v)))')
    c.guard('note text', note)

    def note_k(v):
        st, nt, o = c.symnote(c.state(), 'a', vel=v)
        check('note text', st, nt, exact(o), f'eval(repr(Note(p, s, {v})))')
    for v in (0.0, 1.0, 0.1, 1e-7, 1 / 3, 0.123456789012345, 5e-324, 0.9999999999999999):
        c.guard('note text', note_k, v)

    def trk(n, same):
        st, s, sn, sd = c.symsig(c.state(), 'sig')
        st, t = track(c, st, s)
        nts = []
        for i in range(n):
            st, a, oa, da = simple(c, st, f'a{i}', k=2 + i, n=None if n < 2 else 2 * i + 1)
            nts.append((a, oa))
        outs, items = start(st), []
        for i, (a, oa) in enumerate(nts):
            if n == 1:
                p = Poly.atom(sym('pos', 'int'))
                outs[0].st = c.assume(outs[0].st, Cond('le0', -p))
            else:
                p = const(0 if same else n - i)
            outs = adds(c, outs, t, a, T2(p, 8))
            items.append(item(p * Fraction(1, 8), exact(oa)))
        for o in outs:
            if o.exc is None:
                check('track text', o.st, t, ('track', ('sig', sn, sd), items), f'eval(repr(track of {n} notes))')
    for n, same in ((0, 0), (1, 0), (2, 0), (2, 1), (3, 0)):
        c.guard('track text', trk, n, same)

    def history(h, sg):
        st, t = track(c, c.state(), T2(*sg))
        items, end = gen_hist.model(h)
        exp = gen_hist.expected(('sig', const(sg[0]), const(sg[1])), items)
        exp = (exp[0], exp[1], [(p, exact(n)) for p, n in exp[2]])
        for o in gen_hist.apply(c, st, t, h):
            if o.exc is not None:
                c.demand('track text', [o], [((), ('any',))], gen_hist.text(h))
            else:
                check('track text', o.st, t, exp, 'eval(repr(t)) after ' + gen_hist.text(h))
    for h, sg in hists(c, 80, 800, 11):
        c.guard('track text', history, h, sg)

    def long(n, seed):
        import random
        rnd = random.Random(f'{c.seed}.long.{seed}')
        with c.budget(10 ** 8):
            history(gen_hist.a_history(rnd, n, bool(seed % 2)), (3, 4))
    for i, n in enumerate((40, 70, 130) if c.tier == 'quick' else (30, 50, 70, 110, 200, 300, 600)):
        c.guard('track text', long, n, i)

    def points():
        import random
        from props_core import a_sig
        rnd = random.Random(c.seed + 111)
        for i in range(150 if c.tier == 'quick' else 2000):
            n, d = a_sig(rnd, i)
            p = rnd.choice((-2 ** 40, -1000, -13, -1, 0, 1, 11, 12, 60, 127, 128, 1000, 2 ** 64))
            v = rnd.choice((0.0, 1.0, rnd.random(), rnd.random() * 2.0 ** -rnd.randrange(0, 1000), 1 - rnd.random() * 1e-15, round(rnd.random(), rnd.randrange(1, 18))))
            st, s = c.sig(c.state(), n, d)
            st, t = c.tone(st, p)
            st, b = c.note(st, t, s, v)
            so, to = ('sig', const(n), const(d)), ('tone', const(p))
            check('signature text', st, s, so, f'eval(repr(Signature({n}, {d})))')
            check('tone text', st, t, to, f'eval(repr(Tone({p})))')
            check('note text', st, b, ('note', to, so, ('fx', v)), f'eval(repr(Note({p}, ({n}, {d}), {v})))')
    c.guard('texts of given values', points)
