"""Obligations: comparing what a path of the analysed code yields with what the property demands.

A path outcome is turned into an observation (the public attributes of the result, as terms
over the inputs).  An obligation is
  PROVED     when the two observations have the same normal form under the facts of the path,
  REFUTED    when they do not, the path was analysed without any loss of precision, and there is
             a point (values for the inputs) that satisfies every literal of the path and at
             which the two terms have different values,
  UNDECIDED  otherwise.
"""
import math
import random
import time
from fractions import Fraction

from poly import Poly, Atom, ZERO, ONE, INF, ev, eval_poly, eval_atom, NoValue, free_atoms, EVAL, as_poly, show, sym
from facts import Facts, Cond, showc
from values import *
from interp import Interp, State, Exc, Budget
from program import Program, AnalysisBroken, ClassInfo

PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'


# ------------------------------------------------------------- concrete values

def cv(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def conc(v, env):
    """value of an abstract value at a point"""
    if isinstance(v, K):
        return v.v
    if isinstance(v, N):
        return cv(eval_poly(v.p, env))
    if isinstance(v, F):
        return ev(v.a, env)
    if isinstance(v, B):
        return holds(v.c, env)
    if isinstance(v, T):
        return tuple(conc(i, env) for i in v.items)
    if isinstance(v, S):
        return ''.join(p if isinstance(p, str) else conc_part(p, env) for p in v.parts)
    if isinstance(v, Y):
        return b''.join(p if isinstance(p, bytes) else conc_bytes(p, env) for p in v.parts)
    raise NoValue(v.key)


def conc_part(p, env):
    if p[0] == 'sym':
        x = env.get(p[1].key)
        if isinstance(x, str):
            return x
        raise NoValue(p[1].key)
    if p[0] == 'fmt':
        spec = p[-1]
        x = conc(p[1], env) if isinstance(p[1], V) else cv(ev(p[1], env))
        if spec in ('repr', 'r'):
            return repr(x)
        if spec in ('', 's', 'str'):
            return str(x) if spec != 's' or not isinstance(x, (int, float)) else str(x)
        try:
            if spec.startswith('%'):
                return spec % x
            return format(x, spec)
        except (ValueError, TypeError):
            raise NoValue
    raise NoValue(str(p[0]))


def vlq(x):
    if x < 0:
        raise NoValue
    out = [x & 0x7f]
    x >>= 7
    while x:
        out.append(0x80 | x & 0x7f)
        x >>= 7
    return bytes(reversed(out))


def conc_bytes(p, env):
    k = p[0]
    try:
        if k == 'b':
            return bytes([int(cv(eval_poly(p[1], env)))])
        if k == 'vl':
            return vlq(int(cv(eval_poly(p[1], env))))
        if k == 'int':
            return int(cv(eval_poly(p[1], env))).to_bytes(p[2], p[3])
    except (ValueError, OverflowError, TypeError):
        raise NoValue
    raise NoValue(k)


def fnum(x, env):
    if isinstance(x, (int, float, Fraction)):
        return x
    v = ev(x, env)
    if isinstance(v, Fraction):
        return cv(v)
    return v


def holds(c, env):
    o, a = c.op, c.args
    if o == 'or':
        return any(all(holds(x, env) for x in y) for y in a)
    if o in ('lt0', 'le0', 'eq0', 'ne0'):
        v = eval_poly(a[0], env)
        return {'lt0': v < 0, 'le0': v <= 0, 'eq0': v == 0, 'ne0': v != 0}[o]
    if o in ('flt', 'fle', 'feq', 'fne'):
        x, y = fnum(a[0], env), fnum(a[1], env)
        r = {'flt': x < y, 'fle': x <= y, 'feq': x == y, 'fne': x != y}[o]
        return r if c.pos else not r
    if o == 'b':
        at = a[0]
        if at.key in env:
            return bool(env[at.key]) == c.pos
        if at.kind == 'strval':
            g, w = at.args
            gv = env.get(akey(g))
            if gv is None:
                raise NoValue
            return (gv == w) == c.pos
        if at.kind == 'infset':
            x, vals = at.args
            v = ev(x, env)
            return (v in [cv(ev(q, env)) if not isinstance(q, (int, str)) else q for q in vals]) == c.pos
        v = eval_atom(at, env)
        return bool(v) == c.pos
    raise NoValue(o)


# --------------------------------------------------------------- observations
# ('i', Poly) ('f', term) ('c', const) ('s', V) ('y', V) ('b', Cond)
# ('sig', n, d)  ('sigv', value)  ('tone', p)  ('note', tone, sig, vel)
# ('seq', kind, [obs])  ('trk', sig, [(pos, note)])  ('u', why)  ('exc', names)  ('any',)

class Sampler:
    """values to try for the inputs"""

    def __init__(self, seed=1, tries=3000):
        self.seed, self.tries = seed, tries
        self.dom = {}         # atom key -> list of candidate values
        self.bymake = []      # functions atom -> list or None

    def cands(self, a, facts, consts, rng, env={}):
        d = self.dom.get(a.key)
        if d is not None:
            return list(d)
        for f in self.bymake:
            d = f(a)
            if d is not None:
                return list(d)
        if a.typ == 'bool':
            return [True, False]
        if a.typ == 'float':
            lo, hi = facts.fbounds(a)
            out = [0.0, 1.0, 0.5, 0.75, 0.25, 0.1, 0.3, 0.9, 1 / 3, 2.0, -1.0, 120.0, 440.0, 63 / 127, 1e-9, 0.999, 60.0, 37.5, 3.6, 96.0]
            out += [c for c in (lo, hi) if abs(c) < INF]
            out += [float(c) for c in consts]
            near = [x for x in env.values() if isinstance(x, float) and x == x and abs(x) < 1e18][:6]
            for x in near:
                out += [x, math.nextafter(x, INF), math.nextafter(x, -INF)] + [x + float(c) / 2 for c in consts if 0 < abs(c) < 1]
            if near and rng.random() < 0.5:
                out = out[::-1]
            if lo > -INF and hi < INF:
                out += [lo + (hi - lo) * rng.random() for _ in range(6)]
            if a.key in facts.nan:
                return [math.nan]
            return [x for x in dict.fromkeys(out) if lo <= x <= hi]
        if a.typ not in ('int', 'rat'):
            return []
        fin = facts.finite(a)
        if fin is not None:
            if len(fin) <= 300:
                out = list(fin)
                rng.shuffle(out)
                return out
        lo, hi = facts.bounds(Poly.atom(a))
        out = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 16, 24, 31, 32, 48, 59, 60, 61, 64, 96, 100, 127, 128, 129, 255, 256, 257,
               480, 1000, 16383, 16384, 32767, 65536, 2097151, 2097152, 2 ** 28 - 1, 2 ** 28, -1, -2, -3, -7, -12, -13, -60]
        out += [int(c) + d for c in consts for d in (-1, 0, 1) if abs(c) < 2 ** 70]
        for b in (lo, hi):
            if abs(b) < INF:
                out += [math.floor(b) + d for d in (-1, 0, 1, 2)]
        for x in [x for x in env.values() if isinstance(x, int) and not isinstance(x, bool)][:6]:
            out += [x, x + 1, x - 1, 2 * x] + [x + (1 << k) for k in (7, 8, 10, 12, 14, 16)]
        out += [2 ** 24 + 1, 2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 60 + 1, 10 ** 20 + 7]
        ex = facts.neq.get(Poly.atom(a).key, ())
        out = [x for x in dict.fromkeys(out) if lo <= x <= hi and x not in ex]
        rng.shuffle(out)
        # small values first half of the time
        if rng.random() < 0.5:
            out.sort(key=abs)
        return out


def term_atoms(x, out):
    if isinstance(x, Cond):
        for a in x.args:
            term_atoms(a, out)
    elif isinstance(x, (Poly, Atom)):
        free_atoms(x, out)
        _consts_of(x, out)
    elif isinstance(x, V):
        if isinstance(x, N):
            term_atoms(x.p, out)
        elif isinstance(x, F):
            term_atoms(x.a, out)
        elif isinstance(x, B):
            term_atoms(x.c, out)
        elif isinstance(x, T):
            for i in x.items:
                term_atoms(i, out)
        elif isinstance(x, (S, Y)):
            for p in x.parts:
                if isinstance(p, tuple):
                    for y in p[1:]:
                        term_atoms(y, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            term_atoms(y, out)


def _consts_of(x, out):
    pass


def collect_consts(x, out):
    if isinstance(x, Cond):
        for a in x.args:
            collect_consts(a, out)
    elif isinstance(x, Poly):
        for (p2, ats), c in x.t.items():
            if not p2 and not ats:
                out.add(c)
                out.add(-c)
            for a, _ in ats:
                for y in a.args:
                    collect_consts(y, out)
        if len(x.t) == 2 and ((), ()) in x.t:
            (m, c), = [(m, c) for m, c in x.t.items() if m != ((), ())]
            out.add(-x.t[((), ())] / c)
    elif isinstance(x, Atom):
        if x.kind == 'fconst':
            v = x.args[0]
            if v == v and abs(v) < 1e18:
                out.add(Fraction(v))
        for y in x.args:
            collect_consts(y, out)
    elif isinstance(x, (float, int)) and not isinstance(x, bool):
        if x == x and abs(x) < 1e18:
            out.add(Fraction(x))
    elif isinstance(x, (tuple, list)):
        for y in x:
            collect_consts(y, out)


def _linear_in(c, a, env):
    """value of atom a that makes eq0 condition c hold, if c is linear in a"""
    if c.op != 'eq0':
        return None
    p = c.args[0]
    co = Fraction(0)
    rest = Fraction(0)
    for (p2, ats), k in p.t.items():
        if any(x.key == a.key for x, _ in p2):
            return None
        es = [e for x, e in ats if x.key == a.key]
        mono = Poly({(p2, tuple((x, e) for x, e in ats if x.key != a.key)): k})
        for x, _ in ats:
            if x.key != a.key and a.key in free_atoms(x):
                return None
        try:
            v = eval_poly(mono, env)
        except NoValue:
            return None
        if es:
            if es != [1]:
                return None
            co += v
        else:
            rest += v
    if co == 0:
        return None
    r = -rest / co
    if a.typ == 'int':
        return int(r) if r.denominator == 1 else None
    return r


def expand(fa, conds=(), limit=24):
    """the disjuncts a merged state stands for"""
    todo, out = [fa], []
    while todo:
        f = todo.pop()
        ors = [c for c in f.log if c.op == 'or']
        if not ors or len(todo) + len(out) > limit:
            out.append(f)
            continue
        c = ors[0]
        for alt in c.args:
            g = f.copy()
            g.log = tuple(x for x in f.log if x.key != c.key)
            for x in alt:
                if x.op == 'or':
                    g.log = g.log + (x,)
                    continue
                h = g.assume(x)
                if h is None:
                    g = None
                    break
                if h is g:
                    g = g.copy()
                    g.log = g.log + (x,)
                else:
                    g = h
            if g is not None:
                todo.append(g)
    # literals assumed before an equality was known are looked at again in its light
    return [f for f in out if all(f.decide(c) is not False for c in list(conds) + [x for x in f.log if x.op != 'or'])]


def witness(facts, log, extra, differs, atoms, sampler):
    """a point satisfying facts' literals at which differs(env) is true, or None"""
    conds = [c for c in list(log) + list(extra)]
    at = {}
    for c in conds:
        term_atoms(c, at)
    term_atoms(atoms, at)
    for k, p in facts.rw.items():
        if k in at:
            term_atoms(p, at)
    consts = set()
    for c in conds:
        collect_consts(c, consts)
    collect_consts(atoms, consts)
    consts = sorted(c for c in consts if abs(c) < 2 ** 60)[:40]
    free = [a for a in at.values() if a.kind not in EVAL]
    for a in free:
        if a.kind in ('unknown', 'unkcmp', 'mem', 'hash', 'id', 'phi', 'strcmp', 'streq', 'seqeq'):
            return None
    free.sort(key=lambda a: (0 if facts.finite(a) is not None else 1, a.key))
    need = []
    for c in conds:
        d = {}
        term_atoms(c, d)
        need.append((c, set(k for k in d)))
    rng = random.Random(sampler.seed)
    tries = [0]

    def check(env, just, assigned):
        for c, ks in need:
            if (just is None or just in ks) and ks <= assigned:
                if not holds(c, env):
                    return False
        return True

    t_end = time.time() + (1.0 if sampler.tries <= 3000 else 5.0)
    for rnd in range(40):
        if time.time() > t_end:
            break
        order = list(free)
        if rnd % 2:
            rng.shuffle(order)
        cand = {}
        lim = 2 if rnd < 10 else 4
        ctr = [0]

        def go(i, env, assigned):
            ctr[0] += 1
            tries[0] += 1
            if ctr[0] > sampler.tries // 10 or time.time() > t_end:
                return None
            if i == len(order):
                try:
                    if check(env, None, assigned) and differs(env):
                        return dict(env)
                except (NoValue, OverflowError, ZeroDivisionError):
                    return None
                return None
            a = order[i]
            vals = None
            for c, ks in need:
                if a.key in ks and ks - {a.key} <= assigned:
                    v = _linear_in(c, a, env)
                    if v is not None:
                        vals = [v]
                        break
            if vals is None:
                vals = sampler.cands(a, facts, consts, rng, env)
            n = 0
            for v in vals:
                env[a.key] = v
                assigned.add(a.key)
                try:
                    ok = check(env, a.key, assigned)
                except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError):
                    ok = False
                if ok:
                    n += 1
                    r = go(i + 1, env, assigned)
                    if r is not None:
                        return r
                    if n >= lim + (i == len(order) - 1) * 40:
                        break
                assigned.discard(a.key)
                env.pop(a.key, None)
            return None
        r = go(0, {}, set())
        if r is not None:
            return r
        if not free:
            break
    return None


# ------------------------------------------------------------------ comparison

def obs_terms(o, out):
    """all terms in an observation"""
    if isinstance(o, (Poly, Atom, Cond, V)):
        out.append(o)
    elif isinstance(o, (tuple, list)):
        for x in o:
            obs_terms(x, out)


def has_unknown(o):
    if isinstance(o, tuple) and o and o[0] == 'u':
        return o[1]
    if isinstance(o, (tuple, list)):
        for x in o:
            r = has_unknown(x)
            if r:
                return r
    if isinstance(o, U):
        return o.why or 'unknown'
    if isinstance(o, T):
        for x in o.items:
            r = has_unknown(x)
            if r:
                return r
    if isinstance(o, (S, Y)):
        for p in o.parts:
            if isinstance(p, tuple):
                r = has_unknown(p)
                if r:
                    return r
    return None


def same_int(fa, a, b):
    d = fa.norm(a - b)
    if not d.t:
        return True
    return fa.decide(Cond('eq0', d)) is True


def same_float(fa, a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b)
    if akey(a) == akey(b):
        return True
    return fa.decide(Cond('feq', a, b)) is True


def canon(fa, c):
    """sign conditions up to a positive factor"""
    c = fa.simplify(c)
    if c.op in ('lt0', 'le0', 'eq0', 'ne0') and c.args[0].t:
        p = c.args[0]
        m = min(p.t, key=lambda m: (len(m[1]), ''.join(a.key for a, _ in m[1])))
        p = p * Poly({(tuple((a, -e) for a, e in m[0]), ()): 1 / abs(p.t[m])})
        if c.op in ('eq0', 'ne0') and min(p.t.items(), key=lambda x: (len(x[0][1]), ''.join(a.key for a, _ in x[0][1])))[1] < 0:
            p = -p
        return Cond(c.op, p)
    return c


def same_bool(fa, g, e):
    """g, e: Cond or bool"""
    def dec(f, c):
        return c if isinstance(c, bool) else f.decide(c)
    dg, de = dec(fa, g), dec(fa, e)
    if dg is not None and de is not None:
        return dg == de
    if isinstance(g, Cond) and isinstance(e, Cond):
        if canon(fa, g).key == canon(fa, e).key:
            return True
        for pos in (True, False):
            f2 = fa.assume(e if pos else e.neg())
            if f2 is None:
                continue
            if f2.decide(g) is not pos:
                return False
        return True
    return False


def sval(o):
    if o[0] != 'sig':
        return None
    inv = o[2].inv()
    return None if inv is None else o[1] * inv


def same(fa, g, e):
    """True when the normal forms agree"""
    k = e[0]
    if k == 'any':
        return g[0] != 'exc'
    if k == 'anytrack':
        return g[0] == 'trk'
    if k == 'either':
        return any(same(fa, g, x) for x in e[1])
    if k == 'pred':
        return e[1](fa, g)
    if k == 'sigv':
        if g[0] != 'sig':
            return False
        inv = g[2].inv()
        return inv is not None and same_int(fa, g[1] * inv, e[1])
    if k == 'i' and g[0] == 'c' and isinstance(g[1], bool):
        return False
    if k == 'f':
        if g[0] == 'i':
            return same_float(fa, g[1], e[1]) or (g[1].cval() is not None and isinstance(e[1], (int, float)) and float(g[1].cval()) == float(e[1]))
        if g[0] == 'c' and isinstance(g[1], float):
            return same_float(fa, g[1], e[1])
        return g[0] == 'f' and same_float(fa, g[1], e[1])
    if k == 'fx':
        return g[0] in ('f', 'i', 'c') and same(fa, g, ('f', e[1]))
    if k == 'b':
        if g[0] == 'b':
            return same_bool(fa, g[1], e[1])
        if g[0] == 'c' and isinstance(g[1], bool):
            return same_bool(fa, g[1], e[1])
        return False
    if k == 'track':
        # signature, positions in order, and the same notes at the same positions
        if g[0] != 'trk' or not same(fa, g[1], e[1]) or len(g[2]) != len(e[2]):
            return False
        ps = [sval(x[0]) for x in g[2]]
        if any(x is None for x in ps):
            return False
        if any(fa.decide(Cond('le0', a - b)) is not True for a, b in zip(ps, ps[1:])):
            return False
        return same(fa, ('bag', [('pair', a, b) for a, b in g[2]]), ('bag', [('pair', a, b) for a, b in e[2]]))
    if g[0] != k:
        return False
    if k == 'pair':
        return same(fa, g[1], e[1]) and same(fa, g[2], e[2])
    if k == 'i':
        return same_int(fa, g[1], e[1])
    if k == 'c':
        return type(g[1]) is type(e[1]) and (g[1] == e[1] or g[1] != g[1] and e[1] != e[1])
    if k in ('s', 'y'):
        return normv(fa, g[1]).key == normv(fa, e[1]).key
    if k == 'sig':
        return same_int(fa, g[1], e[1]) and same_int(fa, g[2], e[2])
    if k == 'tone':
        return same_int(fa, g[1], e[1])
    if k == 'note':
        return all(same(fa, x, y) for x, y in zip(g[1:], e[1:]))
    if k == 'seq':
        if g[1] != e[1] and e[1] is not None:
            return False
        return len(g[2]) == len(e[2]) and all(same(fa, x, y) for x, y in zip(g[2], e[2]))
    if k == 'trk':
        return same(fa, g[1], e[1]) and len(g[2]) == len(e[2]) and \
            all(same(fa, a[0], b[0]) and same(fa, a[1], b[1]) for a, b in zip(g[2], e[2]))
    if k == 'bag':
        if len(g[1]) != len(e[1]):
            return False
        rest = list(g[1])
        for y in e[1]:
            for i, x in enumerate(rest):
                if same(fa, x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    if k == 'exc':
        return any(x in g[2] for x in e[1])
    if k == 'same':
        return g[1] == e[1]
    raise ValueError(k)


def normv(fa, v):
    if isinstance(v, N):
        return N(fa.norm(v.p))
    if isinstance(v, S):
        out = []
        for p in v.parts:
            if isinstance(p, tuple) and p[0] == 'fmt' and isinstance(p[1], N):
                q = fa.norm(p[1].p)
                spec = '' if p[-1] in ('d', 'repr', 'str', 'r', 's') else p[-1]
                c = q.ival()
                if c is not None and spec == '':
                    out.append(str(c))
                else:
                    out.append(('fmt', N(q), spec))
            elif isinstance(p, tuple) and p[0] == 'fmt' and isinstance(p[1], F) and p[-1] in ('', 'repr', 'r', 'str', 's'):
                out.append(('fmt', p[1], ''))
            else:
                out.append(p)
        return S(out)
    if isinstance(v, Y):
        out = []
        for p in v.parts:
            if isinstance(p, tuple) and p[0] in ('b', 'vl'):
                out.append((p[0], fa.norm(p[1])))
            elif isinstance(p, tuple) and p[0] == 'int':
                q = fa.norm(p[1])
                n = p[2]
                if q.ival() is not None:
                    try:
                        out.append(q.ival().to_bytes(n, p[3]))
                        continue
                    except OverflowError:
                        pass
                if n == 1:
                    out.append(('b', q))
                else:
                    out.append(('int', q) + tuple(p[2:]))
            else:
                out.append(p)
        return Y(out)
    if isinstance(v, K) and isinstance(v.v, str):
        return S([v.v])
    if isinstance(v, K) and isinstance(v.v, bytes):
        return Y([v.v])
    return v


def differ(g, e, env):
    """do the two observations have different values at a point (NoValue when that cannot be told)"""
    k = e[0]
    if k == 'any':
        return g[0] == 'exc'
    if k == 'anytrack':
        if g[0] == 'u':
            raise NoValue
        return g[0] != 'trk'
    if k == 'either':
        return all(differ(g, x, env) for x in e[1])
    if k == 'pred':
        return e[2](g, env)
    if g[0] == 'u':
        raise NoValue
    if k == 'exc':
        return g[0] != 'exc' or not any(x in g[2] for x in e[1])
    if g[0] == 'exc':
        return True
    if k == 'sigv':
        if g[0] != 'sig':
            return True
        return eval_poly(g[1], env) / eval_poly(g[2], env) != eval_poly(e[1], env)
    if k == 'b':
        if g[0] == 'b':
            gb = holds(g[1], env) if isinstance(g[1], Cond) else g[1]
        elif g[0] == 'c' and isinstance(g[1], bool):
            gb = g[1]
        else:
            return True
        eb = holds(e[1], env) if isinstance(e[1], Cond) else e[1]
        return gb != eb
    if k == 'fx':
        if g[0] not in ('f', 'i') and not (g[0] == 'c' and isinstance(g[1], float)):
            return True
        return fnum(g[1], env) != fnum(e[1], env)
    if k == 'f':
        if g[0] == 'i':
            gv = cv(eval_poly(g[1], env))
        elif g[0] == 'f':
            gv = fnum(g[1], env)
        elif g[0] == 'c' and isinstance(g[1], float):
            gv = g[1]
        else:
            return True
        x = fnum(e[1], env)
        if gv == x or (gv != gv and x != x):
            return False
        if gv != gv or x != x or abs(gv) == INF or abs(x) == INF:
            return True
        return abs(gv - x) > 1e-9 * max(1e-300, abs(gv), abs(x))
    if k == 'i':
        if g[0] != 'i':
            return True
        return eval_poly(g[1], env) != eval_poly(e[1], env)
    if k == 'c':
        return not (g[0] == 'c' and type(g[1]) is type(e[1]) and g[1] == e[1])
    if k == 'track':
        if g[0] != 'trk' or len(g[2]) != len(e[2]) or any(x[0][0] != 'sig' for x in g[2]):
            return True
        ps = [eval_poly(x[0][1], env) / eval_poly(x[0][2], env) for x in g[2]]
        if any(a > b for a, b in zip(ps, ps[1:])):
            return True
        return _any(differ, [(g[1], e[1]), (('bag', [('pair', a, b) for a, b in g[2]]), ('bag', [('pair', a, b) for a, b in e[2]]))], env)
    if k == 'pair':
        return _any(differ, [(g[1], e[1]), (g[2], e[2])], env)
    if k in ('s', 'y'):
        if g[0] != k:
            return True
        return conc(g[1], env) != conc(e[1], env)
    if g[0] != k:
        return True
    if k == 'sig':
        return eval_poly(g[1], env) != eval_poly(e[1], env) or eval_poly(g[2], env) != eval_poly(e[2], env)
    if k == 'tone':
        return eval_poly(g[1], env) != eval_poly(e[1], env)
    if k == 'note':
        return _any(differ, zip(g[1:], e[1:]), env)
    if k == 'seq':
        if (g[1] != e[1] and e[1] is not None) or len(g[2]) != len(e[2]):
            return True
        return _any(differ, zip(g[2], e[2]), env)
    if k == 'trk':
        if len(g[2]) != len(e[2]):
            return True
        prs = [(g[1], e[1])]
        for a, b in zip(g[2], e[2]):
            prs += [(a[0], b[0]), (a[1], b[1])]
        return _any(differ, prs, env)
    if k == 'bag':
        if len(g[1]) != len(e[1]):
            return True
        rest = list(g[1])
        for y in e[1]:
            for i, x in enumerate(rest):
                if not differ(x, y, env):
                    del rest[i]
                    break
            else:
                return True
        return False
    if k == 'same':
        return g[1] != e[1]
    raise ValueError(k)


def _any(f, prs, env):
    nov = False
    for x, y in prs:
        try:
            if f(x, y, env):
                return True
        except NoValue:
            nov = True
    if nov:
        raise NoValue
    return False


def showo(o, env=None):
    """text of an observation (at a point)"""
    def t(x):
        if env is not None:
            try:
                if isinstance(x, Poly):
                    return str(cv(eval_poly(x, env)))
                if isinstance(x, Atom):
                    return str(ev(x, env))
                if isinstance(x, Cond):
                    return str(holds(x, env))
                if isinstance(x, V):
                    return repr(conc(x, env))
            except NoValue:
                pass
        if isinstance(x, Cond):
            return showc(x)
        if isinstance(x, V):
            return showv(x)
        return show(x)
    k = o[0]
    if k in ('i', 'f', 'fx', 's', 'y', 'b'):
        return t(o[1])
    if k == 'c':
        return repr(o[1])
    if k == 'sig':
        return f'{t(o[1])}/{t(o[2])}'
    if k == 'sigv':
        return f'the signature of value {t(o[1])}'
    if k == 'tone':
        return f'Tone({t(o[1])})'
    if k == 'note':
        return 'Note(' + ', '.join(showo(x, env) for x in o[1:]) + ')'
    if k == 'seq':
        return '(' + ', '.join(showo(x, env) for x in o[2]) + ')'
    if k == 'bag':
        return '{' + ', '.join(showo(x, env) for x in o[1]) + '}'
    if k == 'pair':
        return showo(o[1], env) + ': ' + showo(o[2], env)
    if k in ('trk', 'track'):
        return f'Track({showo(o[1], env)}, [' + ', '.join(f'{showo(p, env)}: {showo(n, env)}' for p, n in o[2]) + '])'
    if k == 'exc':
        return 'raises ' + ('/'.join(o[1]) if not isinstance(o[1], str) else o[1])
    if k == 'u':
        return f'?({o[1]})'
    if k == 'either':
        return ' or '.join(showo(x, env) for x in o[1])
    if k == 'pred':
        return o[3]
    if k == 'same':
        return str(o[1])
    return k
