"""Loops: deterministic unrolling where the number of iterations is fixed by the abstract
state; otherwise closed forms for additive and geometric updates (checked to be inductive,
results marked imprecise so that they can be proved right but never reported wrong); otherwise
every path up to a bound on the iterations, and what is cut off is recorded.

A loop whose state fixes every decision and that has not been left after MAXUNROLL iterations,
far more than the input has elements, is recorded in I.diverge.
"""
import ast
import hashlib
from fractions import Fraction

from poly import Poly, Atom, ZERO, ONE, INF, subst, as_poly, akey
from facts import Facts, Cond
from values import *
from program import ClassInfo
import live

NEXT, BREAK, CONT, RET, STOP = 'next', 'break', 'continue', 'return', 'stop'
MAXUNROLL = 1200


# ------------------------------------------------------------------ pruning

def prune(I, st, node, fid):
    """forget local variables that are dead at the head of the loop"""
    if fid is None or fid not in st.frames:
        return st
    fn = st.frames[fid].get('$fn')
    c = I.finfo.setdefault(('live', id(fn), id(node)), None)
    if c is None:
        l = live.live_at_head(fn, node) if fn is not None else None
        c = I.finfo[('live', id(fn), id(node))] = (l,)
    l = c[0]
    if l is None:
        return st
    fr = st.frames[fid]
    dead = [k for k in fr if not k.startswith('$') and not k.startswith('%') and k not in l]
    if not dead:
        return st
    st = st.copy()
    st.frames[fid] = {k: v for k, v in fr.items() if k not in dead}
    return st


# -------------------------------------------------------------- instantiation

def instantiate(I, st, dom, conds, elems, tag=None):
    """fresh copy of the bound atoms of one element of Star<dom> -> (state, elems) or None"""
    m = {}
    if tag is not None:
        seen = {}
        for e in elems:
            collect_el(I, st, e, dom, seen)
        for c in conds:
            for a in c.args:
                _collect(a, dom, seen)
        for k, a in seen.items():
            b = Atom('el', (dom + tag,) + a.args[1:], a.typ)
            m[k] = Poly.atom(b) if a.typ == 'int' else b
    s = st.copy()
    for c in conds:
        c2 = subst_c(c, m) if m else c
        s2 = s.assume(c2)
        if s2 is None:
            return None
        s = s2
    if not m:
        return s, tuple(elems)
    memo = {}
    out = tuple(deep_subst(I, s, e, m, memo, tag) for e in elems)
    return s, out


def _collect(x, dom, out):
    if isinstance(x, Poly):
        for a in x.atoms():
            _collect(a, dom, out)
    elif isinstance(x, Atom):
        if x.kind == 'el' and x.args[0] == dom:
            out[x.key] = x
        else:
            for y in x.args:
                _collect(y, dom, out)
    elif isinstance(x, tuple):
        for y in x:
            _collect(y, dom, out)
    elif isinstance(x, V):
        if isinstance(x, N):
            _collect(x.p, dom, out)
        elif isinstance(x, F):
            _collect(x.a, dom, out)
        elif isinstance(x, B):
            for y in x.c.args:
                _collect(y, dom, out)
        elif isinstance(x, T):
            for y in x.items:
                _collect(y, dom, out)
        elif isinstance(x, (S, Y)):
            for p in x.parts:
                _collect(p, dom, out)


def collect_el(I, st, v, dom, out, seen=None):
    seen = seen if seen is not None else set()
    if isinstance(v, R):
        if v.oid in seen:
            return
        seen.add(v.oid)
        r = st.heap.get(v.oid)
        if isinstance(r, Obj):
            for x in r.f.values():
                collect_el(I, st, x, dom, out, seen)
        elif isinstance(r, (Lst, Dct)):
            for g in r.segs:
                if isinstance(g, El):
                    collect_el(I, st, g.v, dom, out, seen)
    elif isinstance(v, T):
        for x in v.items:
            collect_el(I, st, x, dom, out, seen)
    elif isinstance(v, V):
        _collect(v, dom, out)


def deep_subst(I, st, v, m, memo, tag):
    """substitute in a value and in the objects it refers to (which are copied when they change)"""
    if isinstance(v, R):
        if v.oid in memo:
            return memo[v.oid]
        r = st.heap.get(v.oid)
        if isinstance(r, Obj):
            nf = {}
            memo[v.oid] = v
            ch = False
            for k, x in r.f.items():
                y = deep_subst(I, st, x, m, memo, tag)
                ch = ch or y.key != x.key
                nf[k] = y
            if not ch:
                return v
            h = hashlib.md5((str(tag) + '|' + '|'.join(sorted(f'{k}>{akey(x)}' for k, x in m.items()))).encode()).hexdigest()[:8]
            oid = f'{v.oid}@{h}'
            st.heap[oid] = Obj(r.cls, nf)
            memo[v.oid] = R(oid)
            return memo[v.oid]
        if isinstance(r, Lst) and all(isinstance(g, El) for g in r.segs):
            memo[v.oid] = v
            segs = [El(deep_subst(I, st, g.v, m, memo, tag)) for g in r.segs]
            if [g.key for g in segs] == [g.key for g in r.segs]:
                return v
            h = hashlib.md5((str(tag) + '|' + '|'.join(sorted(m))).encode()).hexdigest()[:8]
            oid = f'{v.oid}@{h}'
            st.heap[oid] = Lst(r.kind, segs)
            memo[v.oid] = R(oid)
            return memo[v.oid]
        return v
    if isinstance(v, T):
        return T([deep_subst(I, st, x, m, memo, tag) for x in v.items])
    return subst_v(v, m)


# -------------------------------------------------------------------- driving

def run_while(I, n, st, fid):
    def step(s):
        outs = []
        for s2, v in I.ev(n.test, s, fid):
            for s3, t in I.truth(v, s2, n.test):
                if not t:
                    outs.append(('exit', s3, None, 0))
                    continue
                for flow, s4, x in I.block(n.body, s3, fid):
                    outs.append((flow, s4, x, 0))
        return outs
    pr = lambda s: prune(I, s, n, fid)
    outs = unroll(I, st, step, pr, n)
    if outs is None:
        outs = solve(I, st, step, I.site(n), n, fid, pr)
    res = []
    for flow, s, v in outs:
        if flow == 'exit':
            res += I.block(n.orelse, s, fid) if n.orelse else [(NEXT, s, None)]
        elif flow == BREAK:
            res.append((NEXT, s, None))
        else:
            res.append((flow, s, v))
    return res


def unroll(I, st, step, pr, node):
    """run the loop while every state either only leaves or only stays; None otherwise"""
    lim = getattr(I, 'unroll_split', 0)

    def go():
        done, cur, splits, excs = [], [pr(st)], 0, 0
        for k in range(max(MAXUNROLL, I.maxloop)):
            nxt = []
            for s in cur:
                r, ex = I.catch(lambda: step(s))
                stay = [x for x in r if x[0] in (NEXT, CONT)]
                leave = [x for x in r if x[0] not in (NEXT, CONT)]
                if stay and (leave or ex):
                    splits += 1
                    if splits > lim:
                        return None
                if len(stay) > 1 and lim == 0 and len(stay) > 6:
                    return None
                I.sinks[-1] += ex
                excs += len(ex)
                done += [x[:3] for x in leave]
                nxt += [pr(x[1]) for x in stay]
            if not nxt:
                return done
            cur = I.merge(nxt)
            if len(cur) > 256 or k > 200 and (len(cur) > 1 or splits):
                return None
        if not done and not excs and len(cur) == 1:
            I.diverge.append((cur[0], I.loc(node)))
            return []
        return None
    steps = I.steps
    r, ex = I.catch(go)
    if r is None:
        return None
    I.sinks[-1] += ex
    return r


def iterate(I, st, segs, body, site, node, fid=None):
    cur = [st]
    outs = []
    pr = (lambda s: prune(I, s, node, fid)) if fid is not None and isinstance(node, ast.For) else (lambda s: s)
    segs = list(segs)
    for g in segs:
        nxt = []
        for s in cur:
            if isinstance(g, El):
                res = body(s, g.v)
            else:
                res = star_loop(I, s, g, body, site, node, fid, pr)
            for flow, s2, v in res:
                if flow in (NEXT, CONT):
                    nxt.append(pr(s2))
                else:
                    outs.append((flow, s2, v))
        cur = I.merge(nxt)
        if not cur:
            break
        if len(cur) > 600:
            I.limit(f'{len(cur)} paths in a loop at {I.loc(node)}')
    return [(NEXT, s, None) for s in cur] + outs


def star_loop(I, st, g, body, site, node, fid, pr):
    order = None
    if isinstance(g, Sorted):
        order = (g.keys, g.rev)
        flat = []
        for x in g.segs:
            flat += list(x.segs) if isinstance(x, (Unord, Sorted)) else [x]
    elif isinstance(g, Unord):
        I.events.append(('unordered', I.loc(node)))
        flat = []
        for x in g.segs:
            flat += list(x.segs) if isinstance(x, (Unord, Sorted)) else [x]
    else:
        flat = [g]
    alts = []
    for x in flat:
        if isinstance(x, El):
            alts.append((None, (), (x.v,)))
        elif isinstance(x, Star):
            for a in x.alts:
                alts.append((x.dom, a.conds, a.elems))
        else:
            alts.append((None, (), (U('element of ' + x.key[:40]),)))
    dom = g.dom if isinstance(g, Star) else ('sorted' if order else 'unord') + ':' + hashlib.md5(g.key.encode()).hexdigest()[:8]
    kfid = None
    st = st.copy()
    if any(x[0] is None for x in alts):
        # elements that are certainly there are treated as any number of them, in any order
        st.imp = st.imp | {'iteration over a collection of known elements in unknown order'}
    if order is not None:
        kfid = I.newframe(st, I.stack[-1].mod if I.stack else 'builtins', None, None, **{'$comp': True})
        st.frames[kfid] = {**st.frames[kfid], '%prev': NONE}

    def step(s):
        outs = [('exit', s, None, 0)]
        ki = 0
        for ai, (d, conds, elems) in enumerate(alts):
            ks = order[0][ki:ki + len(elems)] if order is not None else [None] * len(elems)
            ki += len(elems)
            groups = [(elems, ks)] if order is None else [((e,), (k,)) for e, k in zip(elems, ks)]
            for es, kk in groups:
                inst = instantiate(I, s, d, conds, tuple(es) + (tuple(kk) if order is not None else ())) if d is not None else \
                    (s.copy(), tuple(es) + (tuple(kk) if order is not None else ()))
                if inst is None:
                    continue
                s2, vs = inst
                vals = vs[:len(es)]
                if order is not None:
                    k = vs[len(es)]
                    prev = s2.frames[kfid]['%prev']
                    cand = []
                    if isinstance(prev, K) and prev.v is None:
                        cand = [s2]
                    elif isinstance(k, N) and isinstance(prev, N):
                        c = Cond('le0', prev.p - k.p) if not order[1] else Cond('le0', k.p - prev.p)
                        s3 = s2.assume(c)
                        cand = [s3] if s3 is not None else []
                    else:
                        cand = [s2]
                    nc = []
                    for s3 in cand:
                        s3 = s3.copy()
                        s3.frames[kfid] = {**s3.frames[kfid], '%prev': k}
                        nc.append(s3)
                    curs = nc
                else:
                    curs = [s2]
                for e in vals:
                    nx = []
                    for s3 in curs:
                        for flow, s4, v in (body(s3, e) if not isinstance(e, Sg) else iterate(I, s3, [e.seg], body, site + '.n', node, fid)):
                            if flow in (NEXT, CONT):
                                nx.append(s4)
                            else:
                                outs.append((flow, s4, v, ai))
                    curs = nx
                outs += [(NEXT, s3, None, ai) for s3 in curs]
        return outs
    res = solve(I, st, step, f'{site}<{dom}>', node, fid, pr, star=(dom, alts))
    out = []
    for flow, s, v in res:
        if kfid is not None:
            s = s.copy()
            s.frames.pop(kfid, None)
        out.append((NEXT if flow == 'exit' else flow, s, v))
    return out


# ------------------------------------------------------------------- bounded

def bounded(I, st, step, label, pr, lim=None, whole=False):
    """follow every path of the loop for at most I.loop_bound iterations; what would go on is dropped
    and recorded, so that the result covers (exactly) the executions within the bound"""
    if lim is None:
        lim = getattr(I, 'loop_bound', 6)
    done, cur = [], [pr(st)]
    for k in range(lim + 1):
        nxt = []
        for s in cur:
            for flow, s2, v, tag in step(s):
                if flow in (NEXT, CONT):
                    nxt.append(pr(s2))
                else:
                    done.append((flow, s2, v))
        cur = I.merge(nxt)
        if not cur:
            return done
        if len(cur) > 400:
            break
    if not whole:
        I.cut.append(label)
    return done


RATIOS = [Fraction(1, 2), Fraction(2), Fraction(1, 4), Fraction(4), Fraction(1, 128), Fraction(128), Fraction(1, 256), Fraction(256), Fraction(1, 8), Fraction(8)]


def eq(s, p):
    p = s.facts.norm(p)
    return not p.t or s.facts.decide(Cond('eq0', p)) is True


def closed_forms(I, s0, s1, s2, fid, j):
    """{variable: (closed form as a function of the iteration number, 'add' or ratio)} or None"""
    for k, fr in s0.frames.items():
        if k != fid and s1.frames.get(k) is not fr and s1.frames.get(k) != fr:
            return None
    for oid, r in s0.heap.items():
        if s1.heap.get(oid) is not r or s2.heap.get(oid) is not r:
            return None
    f0, f1, f2 = s0.frames[fid], s1.frames[fid], s2.frames[fid]
    if set(f0) != set(f1) or set(f1) != set(f2):
        return None
    out = {}
    for k, v in f0.items():
        w, x = f1[k], f2[k]
        if getattr(v, 'key', v) == getattr(w, 'key', w) == getattr(x, 'key', x):
            continue
        if not (isinstance(v, N) and isinstance(w, N) and isinstance(x, N)):
            return None
        d = s1.facts.norm(w.p - v.p)
        if eq(s2, x.p - w.p - d):
            out[k] = (v.p + d * j, 'add', lambda n, p=v.p, d=d: p + d * n)
            continue
        for r in RATIOS:
            if eq(s1, w.p - v.p * r) and eq(s2, x.p - w.p * r):
                e = r.numerator.bit_length() - r.denominator.bit_length()
                f = lambda n, p=v.p, e=e: p * Poly.pow2(n * e)
                out[k] = (f(j), r, f)
                break
        else:
            return None
    return out


def accelerate(I, st, step, label, fid, pr, done):
    """the outcomes of the loop after more than `done` iterations, for a loop whose variables change additively or
    geometrically: the head state is generalised over the iteration number, and the generalisation is checked to be
    inductive.  None when that does not succeed."""
    s0 = pr(st)
    if fid is None or fid not in s0.frames:
        return None
    seq = [s0]
    for _ in range(2):
        r, ex = I.catch(lambda: step(seq[-1]))
        stay = I.merge([pr(x[1]) for x in r if x[0] in (NEXT, CONT)])
        if len(stay) != 1:
            return None
        seq.append(stay[0])
    I.fresh = getattr(I, 'fresh', 0) + 1
    ja = Atom('sym', (f'iteration{I.fresh}',), 'int')
    j = Poly.atom(ja)
    forms = closed_forms(I, seq[0], seq[1], seq[2], fid, j)
    if not forms:
        return None
    h = s0.copy()
    f = h.facts.assume(Cond('le0', done + 1 - j))
    if f is None:
        return None
    cands = []
    for k, (p, kind, fn) in forms.items():
        v0 = s0.frames[fid][k].p
        lo = s0.facts.bounds(v0)[0]
        if kind != 'add' and kind < 1:
            e = p.pow2_exp()
            if e is not None:
                cands.append((k, lambda n, fn=fn: Cond('le0', -fn(n).pow2_exp())))
            elif lo >= 0:
                cands.append((k, lambda n, fn=fn, l=1 if lo >= 1 else 0: Cond('le0', l - fn(n))))
        elif lo > -INF and (kind != 'add' or s0.facts.bounds(fn(ONE) - v0)[0] >= 0):
            cands.append((k, lambda n, fn=fn, l=lo: Cond('le0', l - fn(n))))
    for k, cf in cands:
        # must hold after done + 1 iterations at the latest; checked from the start
        if s0.facts.decide(cf(ZERO)) is not True:
            return None
        f = f.assume(cf(j))
        if f is None:
            return None
    f = f.copy()
    for k, (p, kind, fn) in forms.items():
        if kind != 'add' and kind < 1:
            q = f.norm(p)
            f.ints[q.key] = q
    h.facts = f
    h.frames[fid] = {**h.frames[fid], **{k: N(f.norm(p)) for k, (p, kind, fn) in forms.items()}}
    h.imp = h.imp | {'any number of iterations'}
    r, ex = I.catch(lambda: step(h))
    for x in r:
        if x[0] in (NEXT, CONT):
            s = pr(x[1])
            for k, v in h.frames[fid].items():
                if k not in s.frames[fid]:
                    return None
                w = s.frames[fid][k]
                if k in forms:
                    if not isinstance(w, N) or not eq(s, w.p - forms[k][2](j + 1)):
                        return None
                elif getattr(v, 'key', v) != getattr(w, 'key', w):
                    return None
            for k, cf in cands:
                if s.facts.decide(cf(j + 1)) is not True:
                    return None
            for oid, rec in h.heap.items():
                if s.heap.get(oid) is not rec:
                    return None
    I.sinks[-1] += ex
    return [x[:3] for x in r if x[0] not in (NEXT, CONT)]


def solve(I, st, step, label, node, fid, pr, star=None):
    if star is None and isinstance(node, ast.While):
        small = getattr(I, 'small', None)
        small = getattr(I, 'loop_bound', 6) if small is None else small
        r, ex = I.catch(lambda: accelerate(I, st, step, label, fid, pr, small))
        if r is not None:
            I.sinks[-1] += ex
            return bounded(I, st, step, label, pr, small, True) + r
    return bounded(I, st, step, label, pr)
