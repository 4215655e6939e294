"""Immutability of values and of arguments; no state kept between calls."""
from props import prop
from props_core import EXC_V, v_of
from props_track import *
from props_misc import CHORDS
from oblig import *
from poly import sym
import gen_hist
import gen_ops
from props_track import hists


def world(c, notes=2):
    """a few values of every kind -> st, {name: (ref, obs)}"""
    st, s1, n1, d1 = c.symsig(c.state(), 's1', 3)
    st, s2, n2, d2 = c.symsig(st, 's2', 2)
    st, p = c.int_(st, 'p', -24, 103)
    st, t1 = c.tone(st, p)
    st, q = c.int_(st, 'q', -24, 103)
    st, t2 = c.tone(st, q)
    st, a, oa, da = simple(c, st, 'a', n=1, pitch=p)
    st, b, ob, db = simple(c, st, 'b', n=3, k=3, pitch=q)
    w = dict(s1=(s1, ('sig', n1, d1)), s2=(s2, ('sig', n2, d2)), t1=(t1, ('tone', p)), t2=(t2, ('tone', q)), a=(a, oa), b=(b, ob))
    return st, w


def unchanged(c, name, outs, refs, what, allow=()):
    """every value must look as before in every outcome, exceptional or not"""
    from check import Out
    for o in outs:
        if o.exc is not None and not any(o.exc.isa(x) for x in allow):
            c.demand(name, [o], [((), ('any',))], what)
            continue
        for nm, (r, ob) in refs.items():
            c.demand(name, [Out(o.st, r)], [((), ob)], f'{nm} after {what}')


def setattr_outs(c, st, v, name, x):
    from check import Out, NODE
    r, ex = c.I.catch(lambda: [(s, NONE) for s in c.I.setattr_(v, name, x, st, NODE)])
    return [Out(s, NONE) for s, _ in r] + [Out(e.st, exc=e) for e in ex]


@prop('C07')
def c07(c):
    EA = ('exc', ('AttributeError',))
    st0, w = world(c)
    ref = {k: v[0] for k, v in w.items()}

    def frozen():
        for v, nm, x in ((ref['s1'], 'nominator', N(const(1))), (ref['s1'], 'denominator', N(const(1))), (ref['t1'], 'pitch', N(const(1))),
                         (ref['t1'], 'octave', N(const(1))), (ref['a'], 'tone', ref['t2']), (ref['a'], 'duration', ref['s1']), (ref['a'], 'velocity', K(0.5))):
            outs = setattr_outs(c, st0, v, nm, x)
            c.demand('attribute cannot be set', outs, [((), EA)], f'assigning {nm}')
            unchanged(c, 'value unchanged by a failed assignment', outs, w, f'assigning {nm}', ('AttributeError',))
        st, t = track(c, st0)
        for nm in ('signature', 'length'):
            c.demand('attribute cannot be set', setattr_outs(c, st, t, nm, ref['s1']), [((), EA)], f'assigning track.{nm}')
    c.guard('attribute cannot be set', frozen)

    binary = ['<', '<=', '>', '>=', '==', '!=']

    def ops():
        for x, y, os in ((ref['s1'], ref['s2'], binary + ['+', '*', '+=', '*=']), (ref['t1'], ref['t2'], binary), (ref['a'], ref['b'], binary)):
            for op in os:
                for p, q in ((x, y), (y, x), (x, x)):
                    unchanged(c, 'operands unchanged', c.op(st0, op, p, q), w, f'operator {op}')
        for x in ref.values():
            for op in ('repr', 'str'):
                unchanged(c, 'operands unchanged', c.op(st0, op, x), w, f'{op}()')
        unchanged(c, 'operands unchanged', c.op(st0, 'abs', ref['s1']), w, 'abs()')
    c.guard('operands unchanged', ops)

    def methods():
        for v, m, args in ((ref['s1'], 'to', [N(const(16))]), (ref['s1'], 'to', [N(const(8))]), (ref['t1'], 'transposed', [N(const(5))]),
                           (ref['t1'], 'to_notation', []), (ref['t1'], 'to_frequency', []),
                           (ref['a'], 'transposed', [N(const(-3))]), (ref['a'], 'with_duration', [ref['s2']]), (ref['a'], 'with_duration', [T2(3, 8)]),
                           (ref['a'], 'with_velocity', [K(0.25)])):
            unchanged(c, 'receiver unchanged', c.method(st0, v, m, args), w, f'{m}()')
        st, s = c.sig(st0, const(12), const(16))
        w2 = dict(w, s=(s, ('sig', const(12), const(16))))
        unchanged(c, 'receiver unchanged', c.method(st, s, 'normalized', []), w2, 'normalized()')
        unchanged(c, 'receiver unchanged', c.run(st0, c.Note, [ref['t1'], ref['s1'], K(0.5)]), w, 'Note(t1, s1)')
        # values derived from one another stay apart
        for o in c.method(st0, ref['a'], 'with_velocity', [K(0.25)]):
            if o.exc is None:
                unchanged(c, 'derived copies are independent', c.method(o.st, o.v, 'transposed', [N(const(1))]), w, 'a.with_velocity(.25).transposed(1)')
    c.guard('receiver unchanged', methods)

    def chords():
        for names, iv in CHORDS:
            f = c.mod('melodia.music.chord', names.split()[0])
            unchanged(c, 'chord base unchanged', c.run(st0, f, [ref['a'], ref['s1'], K(0.5)]), w, names.split()[0])
            unchanged(c, 'chord base unchanged', c.run(st0, f, [ref['t1'], ref['s1']]), w, names.split()[0])
    c.guard('chord base unchanged', chords)

    def tracks():
        st, t = track(c, st0, ref['s1'])
        for where in (ref['s2'], None):
            outs = adds(c, start(st), t, ref['a'], where)
            outs = adds(c, outs, t, ref['b'], T2(1, 64))
            unchanged(c, 'added note unchanged', outs, w, 'track.add')
            outs = iterated(c, outs, t)
            unchanged(c, 'added note unchanged', outs, w, 'iterating a track')
    c.guard('added note unchanged', tracks)

    def alias():
        from check import Out
        # mutable arguments are copied, not kept
        st, g = lst(c, st0, [T([ref['a'], T2(1, 4)]), T([ref['b'], T2(1, 2)])])
        exp = ('track', SIG44, [item(const(1) * Fraction(1, 4), w['a'][1]), item(const(1) * Fraction(1, 2), w['b'][1])])
        for o in c.run(st, c.Track, [], {'content': g}):
            if o.exc is not None:
                c.demand('content list is not kept', [o], [((), ('any',))])
                continue
            c.demand('content list is not modified', [Out(o.st, g)],
                     [((), ('seq', 'list', [('seq', 'tuple', [w['a'][1], ('seq', 'tuple', [('i', ONE), ('i', const(4))])]), ('seq', 'tuple', [w['b'][1], ('seq', 'tuple', [('i', ONE), ('i', const(2))])])]))], 'the list after Track(content=list)')
            for o2 in c.method(o.st, g, 'clear', []):
                c.demand('content list is not kept', [Out(o2.st, o.v)], [((), exp)], 'Track(content=list) after list.clear()')
        st, t = track(c, st0)
        st, g = lst(c, st, [ref['a'], ref['b']])
        for o in c.method(st, t, 'add', [g, T2(1, 4)]):
            if o.exc is not None:
                c.demand('group list is not kept', [o], [((), ('any',))])
                continue
            exp = ('track', SIG44, [item(const(1) * Fraction(1, 4), w['a'][1]), item(const(1) * Fraction(1, 4), w['b'][1])])
            c.demand('group list is not modified', [Out(o.st, g)], [((), ('seq', 'list', [w['a'][1], w['b'][1]]))], 'the list after track.add(list)')
            for o2 in c.method(o.st, g, 'clear', []):
                c.demand('group list is not kept', [Out(o2.st, t)], [((), exp)], 'track.add(list) after list.clear()')
        # a list used as a pair
        st, pr = lst(c, st0, [N(const(3)), N(const(8))])
        for o in c.run(st, c.Note, [ref['t1'], pr]):
            if o.exc is None:
                for o2 in c.method(o.st, pr, 'reverse', []):
                    c.demand('pair is not kept', [Out(o2.st, o.v)], [((), ('note', w['t1'][1], ('sig', const(3), const(8)), ('f', 0.75)))], 'Note(t, [3, 8]) after the list changed')
        for o in c.run(st, c.Track, [pr]):
            if o.exc is None:
                for o2 in c.method(o.st, pr, 'reverse', []):
                    c.demand('pair is not kept', [Out(o2.st, o.v)], [((), ('track', ('sig', const(3), const(8)), []))], 'Track([3, 8]) after the list changed')
    c.guard('content list is not kept', alias)

    def history(h):
        """whatever was passed to add looks the same after the whole history"""
        from check import Out
        st, t = track(c, st0)
        kept = {}
        refs0 = gen_hist.apply(c, st, t, h, kept)
        for o in refs0:
            if o.exc is not None:
                c.demand('arguments of add unchanged', [o], [((), ('any',))])
                continue
            for nm, (r, ob) in kept.items():
                c.demand('arguments of add unchanged', [Out(o.st, r)], [((), ob)], f'{nm} after {gen_hist.text(h)}')
    for h, sg in hists(c, 60, 600, 3):
        c.guard('arguments of add unchanged', history, h)

    def content_list(h, n):
        from check import Out
        st, items, exp = st0, [], []
        for i, op in enumerate(h):
            if op[0] != 'add':
                continue
            for p, d, v in op[2]:
                st, r = gen_hist.mknote(c, st, p, d, v)
                if op[3] is None:
                    w, ow = NONE, ('c', None)
                elif op[4] == 'sig':
                    st, w = c.sig(st, *op[3])
                    ow = ('sig', const(op[3][0]), const(op[3][1]))
                elif op[4] == 'list':
                    st, w = lst(c, st, [N(const(x)) for x in op[3]])
                    ow = ('seq', 'list', [('i', const(x)) for x in op[3]])
                else:
                    w = T2(*op[3])
                    ow = ('seq', 'tuple', [('i', const(x)) for x in op[3]])
                if (i + n) % 3:
                    items.append(T([r, w]))
                    exp.append(('seq', 'tuple', [gen_hist.onote(p, d, v), ow]))
                else:
                    st, x = lst(c, st, [r, w])
                    items.append(x)
                    exp.append(('seq', 'list', [gen_hist.onote(p, d, v), ow]))
        st, g = lst(c, st, items)
        for o in c.run(st, c.Track, [], {'content': g}):
            c.demand('content list is not modified', [Out(o.st, g)] if o.exc is None else [o], [((), ('seq', 'list', exp))], 'the list after Track(content=list)')
    for n, (h, sg) in enumerate(hists(c, 40, 400, 4)):
        c.guard('content list is not modified', content_list, h, n)

    def used(h, sg, k):
        """a track that is only looked at, written or processed stays as it is"""
        from check import Out
        st, t = track(c, c.state(), T2(*sg))
        items, end = gen_hist.model(h)
        exp = gen_hist.expected(('sig', const(sg[0]), const(sg[1])), items)
        st, wr = c.one(st, c.mod('melodia.io.midi', 'MIDIWriter'), [])
        kept = {}
        for o in gen_hist.apply(c, st, t, h, kept):
            if o.exc is not None:
                c.demand('used track unchanged', [o], [((), ('any',))])
                continue
            for nm, f in ((('dumps', lambda s: c.method(s, wr, 'dumps', [t])), ('randomize_velocities', lambda s: c.run(s, c.mod('melodia.processing.track', 'randomize_velocities'), [t])),
                          ('iteration', lambda s: c.iter_items(s, t)), ('comparison', lambda s: c.op(s, '==', t, t)), ('repr', lambda s: c.op(s, 'repr', t))))[k % 5:][:1]:
                outs = [Out(x.st, t) for x in f(o.st) if x.exc is None]
                if outs:
                    c.demand('used track unchanged', outs, [((), exp)], f'the track after {nm} of {gen_hist.text(h)}')
                    for what, (r, ob) in kept.items():
                        c.demand('arguments of add unchanged', [Out(x.st, r) for x in outs], [((), ob)], f'{what} after {nm} of {gen_hist.text(h)}')
                    c.demand('used track unchanged', [y for x in outs for y in c.attr(x.st, t, 'length')], [((), ('sigv', const(1) * end))], f'its length after {nm} of {gen_hist.text(h)}')
    for k, (h, sg) in enumerate(hists(c, 50, 500, 5)):
        with c.budget(10 ** 7):
            c.guard('used track unchanged', used, h, sg, k)

    def yielded(h, sg, later):
        """positions, notes and lengths handed out stay as they were, whatever is added later"""
        from check import Out
        st, t = track(c, c.state(), T2(*sg))
        for o in gen_hist.apply(c, st, t, h):
            if o.exc is not None:
                c.demand('values handed out are kept', [o], [((), ('any',))])
                continue
            for x in c.attr(o.st, t, 'length'):
                for y in c.iter_items(x.st, t) if x.exc is None else [x]:
                    if y.exc is not None or y.v is None:
                        c.demand('values handed out are kept', [Out(y.st, exc=y.exc) if y.exc is not None else Out(y.st, U('iteration'))], [((), ('any',))])
                        continue
                    kept = [(f'item {i}', v) for i, v in enumerate(y.v)] + [('length', x.v)]
                    if len(later) % 2:
                        # the second round hands out the very objects the first did, or new ones: both stay
                        kept = kept[:1] + kept[-1:]
                    seen, s = [], y.st
                    for nm, v in kept:
                        g = c.observed(Out(s, v))
                        if len(g) != 1:
                            break
                        s = g[0][0]
                        seen.append((nm, v, g[0][1]))
                    outs = [Out(s, NONE)]
                    for n, d in later:
                        res = []
                        for q in outs:
                            if q.exc is not None:
                                res.append(q)
                                continue
                            s2, nt = gen_hist.mknote(c, q.st, 2, (1, d), 0.5)
                            res += c.method(s2, t, 'add', [nt, T2(n, d)])
                            if len(later) == 3:
                                res = [z for r in res for z in ([r] if r.exc is not None else [Out(w.st, NONE, exc=w.exc) for w in c.iter_items(r.st, t)])]
                        outs = res
                        for q in outs:
                            for nm, v, ob in seen:
                                c.demand('values handed out are kept', [q] if q.exc is not None else [Out(q.st, v)], [((), ob)], f'{nm} of the track after {gen_hist.text(h)} and an addition at {n}/{d}')
    LATER = (((1, 2 ** 12),), ((3, 2 ** 7), (5, 2 ** 20)), ((1, 2 ** 9), (1, 2 ** 17), (7, 2 ** 40)), ((1, 2 ** 30), (0, 2 ** 62)), ((0, 1),), ((1, 32), (1, 64)))
    for k, (h, sg) in enumerate(hists(c, 24, 240, 6)):
        with c.budget(10 ** 7):
            c.guard('values handed out are kept', yielded, h, sg, LATER[k % len(LATER)])

    def failing(pos):
        """a group with something that is no note: it raises; the list stays"""
        from check import Out
        notes = [(5, (1, 4), 0.5), (3, (1, 8), 0.5), (4, (1, 2), 0.25), (1, (1, 4), 1.0)]
        st, t = track(c, st0)
        rs, exp = [], []
        for p, d, v in notes:
            st, r = gen_hist.mknote(c, st, p, d, v)
            rs.append(r)
            exp.append(gen_hist.onote(p, d, v))
        rs.insert(pos, NONE)
        exp.insert(pos, ('c', None))
        st, g = lst(c, st, rs)
        for o in c.method(st, t, 'add', [g, T2(1, 4)]):
            if o.exc is not None:
                c.demand('group list is not modified', [Out(o.st, g)], [((), ('seq', 'list', exp))], 'the list after track.add(list with None) raised')
    for pos in (0, 2, 4):
        c.guard('group list is not modified', failing, pos)

    def two_tracks():
        """tracks share nothing but the notes"""
        from check import Out
        st, t = track(c, st0)
        st, u = track(c, st)
        for o in adds(c, start(st), t, ref['a'], T2(1, 4)):
            if o.exc is not None:
                c.demand('tracks are independent', [o], [((), ('any',))])
                continue
            c.demand('tracks are independent', [Out(o.st, u)], [((), ('track', SIG44, []))], 'another track after t.add(a)')
            c.demand('tracks are independent', c.attr(o.st, u, 'length'), [((), ('sigv', ZERO))], 'length of another track after t.add(a)')
            st3, v = track(c, o.st)
            c.demand('tracks are independent', [Out(st3, v)], [((), ('track', SIG44, []))], 'a new track after t.add(a)')
            c.demand('tracks are independent', c.attr(st3, v, 'length'), [((), ('sigv', ZERO))], 'length of a new track after t.add(a)')
    c.guard('tracks are independent', two_tracks)

    W = c.mod('melodia.io.midi', 'MIDIWriter')
    R_ = c.mod('melodia.processing.track', 'randomize_velocities')

    def readers():
        st, t = track(c, st0, ref['s1'])
        sg = w['s1'][1]
        st = c.assume(st, Cond('le0', sg[1] - 255))
        outs = adds(c, start(st), t, ref['a'], T2(1, 4))
        outs = adds(c, outs, t, ref['b'], T2(1, 16))
        exp = ('track', sg, [item(const(1) * Fraction(1, 4), w['a'][1]), item(const(1) * Fraction(1, 16), w['b'][1])])
        for o in outs:
            if o.exc is not None:
                c.demand('written track unchanged', [o], [((), ('any',))])
                continue
            refs = dict(w, track=(t, exp))
            st1, wr = c.one(o.st, W, [])
            unchanged(c, 'written track unchanged', c.method(st1, wr, 'dumps', [t]), refs, 'MIDIWriter().dumps(track)')
            unchanged(c, 'randomised track unchanged', c.run(o.st, R_, [t]), refs, 'randomize_velocities(track)')
            unchanged(c, 'printed track unchanged', c.op(o.st, 'repr', t), refs, 'repr(track)')
            unchanged(c, 'printed track unchanged', c.op(o.st, 'str', t), refs, 'str(track)')
            unchanged(c, 'compared track unchanged', c.op(o.st, '==', t, t), refs, 'track == track')
    c.guard('written track unchanged', readers)
    gen_ops.sequences(c, None, 'c07.ops', gen_ops.GROUPS, 600, 5000, after='values unchanged by later calls')
