#!/usr/bin/env python3
"""Driver: python3 check.py <property> [--tier quick|thorough]  (exit 0 held, 1 violated, 2 no answer)"""
import ast
import contextlib
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import gc
gc.disable()

from oblig import *
from poly import sym

VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SA_REPO', '/repo')
NODE = ast.parse('x').body[0]


class Isa:
    def __init__(self, e):
        self.e = e

    def __contains__(self, name):
        return self.e.isa(name)


class Out:
    __slots__ = ('st', 'v', 'exc')

    def __init__(self, st, v=None, exc=None):
        self.st, self.v, self.exc = st, v, exc


class Check:
    def __init__(self, pid, tier='quick', seed=1, extra=(), sources=()):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.results = []        # dicts
        self.shard = (0, 1)
        self.scen = 0
        self.paths = 0
        if not any(n == '_support' for n, p in extra):
            extra = [('_support', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'support.py')), *extra]
        self.P = Program(os.path.join(REPO, 'src'), extra=[(n, p.replace('$REPO', REPO)) for n, p in extra])
        for n, src in sources:
            self.P.add_source(n, src)
        self.P.add_stubs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))
        self.I = Interp(self.P)
        self.I.load_all()
        if self.I.import_exc:
            raise AnalysisBroken(f'importing the package raises {self.I.import_exc[0]}')
        self.sampler = Sampler(seed, 3000 if tier == 'quick' else 12000)
        self.scen_budget = 60000 if tier == 'quick' else 400000
        self.notes = []
        self.recycle = None
        self.cuts = set()
        self.lims = set()
        self.t0 = time.time()
        self.tlimit = 240 if tier == 'quick' else 700
        C = lambda m, n: self.mod(m, n)
        self.Signature, self.Tone = C('melodia.core', 'Signature'), C('melodia.core', 'Tone')
        self.Note, self.Track = C('melodia.core', 'Note'), C('melodia.core', 'Track')
        self.kinds = {self.Signature.info: 'sig', self.Tone.info: 'tone', self.Note.info: 'note', self.Track.info: 'trk'}

    # ---------------------------------------------------------------- anchors
    def mod(self, m, name):
        fr = self.I.base.frames.get('mod:' + m)
        if fr is None or name not in fr:
            raise AnalysisBroken(f'{m}.{name} is missing')
        return fr[name]

    def late(self):
        return time.time() - self.t0 > self.tlimit

    # ----------------------------------------------------------------- inputs
    def state(self):
        self.I.steps = 0
        self.I.budget = self.scen_budget
        return self.I.base.copy()

    def assume(self, st, *conds):
        for c in conds:
            st = st.assume(c)
            if st is None:
                return None
        return st

    def int_(self, st, name, lo=None, hi=None, typ='int'):
        p = Poly.atom(sym(name, typ))
        if lo is not None:
            st = st.assume(Cond('le0', as_poly(lo) - p))
        if hi is not None:
            st = st.assume(Cond('le0', p - as_poly(hi)))
        return st, p

    def flt(self, st, name, lo=None, hi=None):
        a = sym(name, 'float')
        if lo is not None:
            st = st.assume(Cond('fle', lo, a))
        if hi is not None:
            st = st.assume(Cond('fle', a, hi))
        return st, a

    def calls(self, st, f, args, kw=None):
        """normal outcomes only"""
        r, ex = self.I.catch(lambda: self.I.call(f, args, kw or {}, st, NODE))
        return r

    def one(self, st, f, args, kw=None):
        """construct an input: the normal outcome (there must be one)"""
        r, ex = self.I.catch(lambda: self.I.call(f, args, kw or {}, st, NODE))
        r = [(s, v) for s, v in r]
        if not r:
            raise NoInput(f'{ex[0] if ex else "no outcome"} while building an input')
        if self.recycle is not None and self.I.addr:
            self.reuse(r[0][0], self.recycle[0], [r[0][1]], self.recycle[1])
        return r[0]

    def sig(self, st, n, d):
        """Signature object from terms"""
        return self.one(st, self.Signature, [N(as_poly(n)), N(as_poly(d))])

    def reuse(self, st, live, new, old=None):
        """the memory of objects that are no more is used again for new ones: their identities repeat"""
        ad = self.I.addr
        if not ad:
            return
        held = reachable(st, [v for f, fr in st.frames.items() if f.startswith('mod:') for v in fr.values()] + list(live))
        own = [o for o in sorted(reachable(st, new) - held, key=lambda o: (len(o), o)) if o not in ad]
        kind = lambda o: (type(st.heap[o]).__name__, getattr(getattr(st.heap[o], 'cls', None), 'qual', None))
        mine = reachable(st, new)
        dead = [o for o in ad if o in st.heap and o not in held and o not in mine and (old is None or o in old)]
        for o in own:
            for d in dead:
                if kind(d) == kind(o):
                    ad[o] = ad[d]
                    dead.remove(d)
                    break

    def symsig(self, st, name, k=None):
        """a signature with unknown nominator and (unless given) unknown denominator -> st, ref, n, d"""
        st, n = self.int_(st, name + '.n', 0)
        if k is None:
            st, e = self.int_(st, name + '.k', 0, 64)
            d = Poly.pow2(e)
        else:
            d = Poly.const(2 ** k)
        st, r = self.sig(st, n, d)
        return st, r, n, d

    def tone(self, st, p):
        return self.one(st, self.Tone, [N(as_poly(p))])

    def note(self, st, tone, dur, vel):
        v = F(vel) if isinstance(vel, Atom) else K(float(vel))
        return self.one(st, self.Note, [tone, dur, v])

    def symnote(self, st, name, k=None, pitch=None, vel=None):
        """-> st, ref, obs"""
        if pitch is None:
            st, p = self.int_(st, name + '.pitch')
        else:
            p = as_poly(pitch)
        st, t = self.tone(st, p)
        st, s, n, d = self.symsig(st, name + '.dur', k)
        if vel is None:
            st, v = self.flt(st, name + '.vel', 0.0, 1.0)
        else:
            v = vel
        st, r = self.note(st, t, s, v)
        return st, r, ('note', ('tone', p), ('sig', n, d), ('f', v))

    # ------------------------------------------------------------ observation
    def attr(self, st, v, name):
        """[(state, value)] + exceptions as Out"""
        r, ex = self.I.catch(lambda: self.I.getattr_(v, name, st, NODE))
        return [Out(s, x) for s, x in r] + [Out(e.st, exc=e) for e in ex]

    def _attrs(self, st, v, names):
        outs = [(st, [])]
        for n in names:
            nx = []
            for s, vs in outs:
                for o in self.attr(s, v, n):
                    if o.exc is not None:
                        nx.append((o.st, vs + [('exc', o.exc.name, Isa(o.exc))]))
                    else:
                        nx += [(s2, vs + [ob]) for s2, ob in self.obs(o.st, o.v)]
            outs = nx
        return outs

    def obs(self, st, v):
        if isinstance(v, K):
            if isinstance(v.v, str):
                return [(st, ('s', v))]
            if isinstance(v.v, bytes):
                return [(st, ('y', v))]
            if isinstance(v.v, float):
                return [(st, ('f', v.v))]
            return [(st, ('c', v.v))]
        if isinstance(v, N):
            return [(st, ('i', v.p))]
        if isinstance(v, F):
            return [(st, ('f', v.a))]
        if isinstance(v, B):
            return [(st, ('b', v.c))]
        if isinstance(v, S):
            return [(st, ('s', v))]
        if isinstance(v, Y):
            return [(st, ('y', v))]
        if isinstance(v, U):
            return [(st, ('u', v.why))]
        if isinstance(v, T):
            return self._seq(st, 'tuple', v.items)
        if isinstance(v, R):
            r = st.heap[v.oid]
            if isinstance(r, Obj):
                k = None
                for c, kk in self.kinds.items():
                    if r.cls.is_subclass(c):
                        k = kk
                if k == 'sig':
                    out = []
                    for s, (n, d) in self._attrs(st, v, ['nominator', 'denominator']):
                        if n[0] == 'i' and d[0] == 'i':
                            out.append((s, ('sig', n[1], d[1])))
                        elif n[0] == 'exc' or d[0] == 'exc':
                            out.append((s, n if n[0] == 'exc' else d))
                        else:
                            out.append((s, ('u', f'signature parts {n[0]} {d[0]}') if 'u' in (n[0], d[0]) else ('badsig', n, d)))
                    return out
                if k == 'tone':
                    return [(s, ('tone', p[1]) if p[0] == 'i' else p if p[0] in ('u', 'exc') else ('badtone', p))
                            for s, (p,) in self._attrs(st, v, ['pitch'])]
                if k == 'note':
                    return [(s, ('note', t, d, f)) for s, (t, d, f) in self._attrs(st, v, ['tone', 'duration', 'velocity'])]
                if k == 'trk':
                    return self.obs_track(st, v)
                if r.cls.namedtuple:
                    return self._seq(st, 'tuple', [r.f[f] for f, _ in r.cls.fields])
                return [(st, ('obj', r.cls.qual))]
            if isinstance(r, Lst):
                if all(isinstance(g, El) for g in r.segs):
                    return self._seq(st, r.kind, [g.v for g in r.segs])
                return [(st, ('u', 'sequence of unknown length'))]
            return [(st, ('obj', type(r).__name__))]
        return [(st, ('obj', v.key))]

    def _seq(self, st, kind, items):
        outs = [(st, [])]
        for x in items:
            outs = [(s2, os + [o]) for s, os in outs for s2, o in self.obs(s, x)]
        return [(s, ('seq', kind, os)) for s, os in outs]

    def obs_track(self, st, v):
        out = []
        for s, (sg,) in self._attrs(st, v, ['signature']):
            for o in self.iter_items(s, v):
                if o.exc is not None:
                    out.append((o.st, ('exc', o.exc.name, Isa(o.exc))))
                    continue
                if o.v is None:
                    out.append((o.st, ('u', 'iteration over the track')))
                    continue
                for s2, q in self._seq(o.st, 'list', o.v):
                    items = []
                    bad = None
                    for x in q[2]:
                        if x[0] == 'seq' and len(x[2]) == 2:
                            items.append((x[2][0], x[2][1]))
                        else:
                            bad = x
                    out.append((s2, ('trk', sg, items) if bad is None else ('u', 'track element ' + bad[0])))
        return out

    def iter_items(self, st, v):
        r, ex = self.I.catch(lambda: self.I.lib.segs(v, st, NODE))
        out = [Out(e.st, exc=e) for e in ex]
        for s, segs in r:
            if all(isinstance(g, El) for g in segs):
                out.append(Out(s, [g.v for g in segs]))
            else:
                out.append(Out(s, None))
        return out

    # ------------------------------------------------------------ obligations
    def run(self, st, f, args, kw=None):
        r, ex = self.I.catch(lambda: self.I.call(f, args, kw or {}, st, NODE))
        outs = [Out(s, v) for s, v in r] + [Out(e.st, exc=e) for e in ex]
        self.paths += len(outs)
        return outs

    def method(self, st, v, name, args, kw=None):
        outs = []
        for o in self.attr(st, v, name):
            if o.exc is not None:
                outs.append(o)
            else:
                outs += self.run(o.st, o.v, args, kw)
        return outs

    def op(self, st, op, a, b=None):
        """outcomes of an operator or builtin: '+','<','abs','len','repr','str','neg' ..."""
        I = self.I
        if op in ('<', '<=', '>', '>=', '==', '!='):
            th = lambda: I.compare(op, a, b, st, NODE)
        elif b is not None and op[-1] == '=':
            th = lambda: I.inplace(op[:-1], a, b, st, NODE)
        elif b is not None:
            th = lambda: I.binop(op, a, b, st, NODE)
        else:
            th = lambda: I.call(Bi('builtins.' + op), [a], {}, st, NODE)
        r, ex = I.catch(th)
        outs = [Out(s, v) for s, v in r] + [Out(e.st, exc=e) for e in ex]
        self.paths += len(outs)
        return outs

    def observed(self, o):
        if o.exc is not None:
            return [(o.st, ('exc', o.exc.name, Isa(o.exc)), o.exc.loc)]
        r, ex = self.I.catch(lambda: self.obs(o.st, o.v))
        w = o.st.where
        return [(s, ob, w) for s, ob in r] + [(e.st, ('exc', e.name, Isa(e)), e.loc) for e in ex]

    def demand(self, name, outs, cases, what='', inputs=None):
        """every outcome must be what the case it falls in demands.  cases: [(conds, obs or f(state))]"""
        n = 0
        for o in outs:
            for s, got, where in self.observed(o):
                for conds, exp in cases:
                    s2 = self.assume(s, *conds)
                    if s2 is None:
                        continue
                    e = exp(s2) if callable(exp) else exp
                    self.oblige(name, s2, got, e, conds, where, what, inputs)
                    n += 1
        for st, where in self.I.diverge[:1]:
            if not st.imp and witness(st.facts, st.facts.log, (), lambda env: True, [], self.sampler) is not None:
                self.record(name, REFUTED, 'the loop is not left', where, what, dict(path=[showc(c) for c in st.facts.log], point={}, got='no end', expected='an outcome'))
                n += 1
        self.I.diverge = []
        if n == 0:
            self.record(name, UNDECIDED, 'no path reached the obligation', None, what)

    def oblige(self, name, st, got, exp, conds=(), where=None, what='', inputs=None):
        try:
            if same(st.facts, got, exp):
                return self.record(name, PROVED, '', where, what)
        except NoValue:
            pass
        if any(x.op == 'or' for x in st.facts.log):
            alts = expand(st.facts, conds)
            try:
                if all(same(f, got, exp) for f in alts):
                    return self.record(name, PROVED, '', where, what)
            except NoValue:
                pass
        if st.imp:
            return self.record(name, UNDECIDED, 'imprecise path: ' + '; '.join(sorted(st.imp))[:200], where, what)
        u = has_unknown(got)
        if u and not (got[0] in ('exc',)):
            return self.record(name, UNDECIDED, 'unknown value: ' + str(u)[:200], where, what)
        terms = []
        obs_terms(got, terms)
        obs_terms(exp, terms)
        if inputs:
            obs_terms(inputs, terms)
        try:
            w = witness(st.facts, st.facts.log, conds, lambda env: differ(got, exp, env), terms, self.sampler)
        except NoValue:
            w = None
        if w is None:
            alts = expand(st.facts, conds)
            live = [f for f in alts if not f.contradictory()]
            if not live:
                return      # no input takes this path
            try:
                if all(same(f, got, exp) for f in live):
                    return self.record(name, PROVED, '', where, what)
            except NoValue:
                pass
            return self.record(name, UNDECIDED, f'no witness: got {showo(got)[:160]} expected {showo(exp)[:160]}', where, what)
        return self.record(name, REFUTED, f'got {showo(got, w)} expected {showo(exp, w)}', where, what,
                           dict(path=[showc(c) for c in st.facts.log], point={k: str(v) for k, v in sorted(w.items())},
                                got=showo(got), expected=showo(exp)))

    def record(self, name, status, why, where, what, data=None):
        self.results.append(dict(obligation=name, status=status, why=why, where=where, what=what, data=data))
        return status

    @contextlib.contextmanager
    def budget(self, n):
        old, self.scen_budget = self.scen_budget, n
        self.I.budget = n
        try:
            yield
        finally:
            self.scen_budget = old

    def guard(self, name, f, *a, **k):
        """run one scenario; running out of budget or inputs makes it undecided, not broken"""
        self.scen += 1
        if self.scen % self.shard[1] != self.shard[0]:
            return
        if self.late():
            self.record(name, UNDECIDED, 'time limit', None, '')
            return
        mark = len(self.I.limits)
        self.I.cut = []
        self.I.diverge = []
        self.I.steps = 0
        self.I.maxloop = 0
        self.I.draws = self.recycle = None
        self.I.addr = {k: v for k, v in self.I.addr.items() if k in self.I.shared}
        self.I.budget = self.scen_budget
        self.I.sinks = [[]]
        self.I.stack, self.I.active = [], []
        self.I.late = lambda: time.time() - self.t0 > 1.2 * self.tlimit
        t1 = time.time()
        try:
            f(*a, **k)
        except Budget as e:
            self.record(name, UNDECIDED, str(e), None, '')
        except NoInput as e:
            self.record(name, UNDECIDED, str(e), None, '')
        except RecursionError:
            self.record(name, UNDECIDED, 'analysis recursion', None, '')
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.record(name, UNDECIDED, f'analysis error {type(e).__name__}: {e}', None, '')
        if os.environ.get('SA_TIMES') and time.time() - t1 > 2:
            print(f'  slow {time.time() - t1:.1f}s {name} {a} {self.results[-1]["status"] if self.results else ""}', flush=True)
        self.lims |= set(self.I.limits[mark:])
        self.cuts |= set(self.I.cut)


def reachable(st, roots):
    """objects that can be reached from some values"""
    import ast
    seen, out, todo = {}, set(), list(roots)
    while todo:
        v = todo.pop()
        if v is None or isinstance(v, (str, int, float, bytes, bool, ast.AST, Poly)) or id(v) in seen:
            continue
        seen[id(v)] = v
        if isinstance(v, R):
            if v.oid not in out and v.oid in st.heap:
                out.add(v.oid)
                todo.append(st.heap[v.oid])
        elif isinstance(v, dict):
            todo += list(v.values())
        elif isinstance(v, (list, tuple, set, frozenset)):
            todo += list(v)
        elif hasattr(v, 'info'):
            todo.append(v.info.attrs)
        elif not isinstance(v, type):
            if hasattr(v, 'fid') and v.fid in st.frames:
                f = v.fid
                while f is not None and f in st.frames:
                    todo.append(st.frames[f])
                    f = st.frames[f].get('$parent')
            for k in type(v).__mro__:
                for n in getattr(k, '__slots__', ()):
                    if n != 'fid' and hasattr(v, n):
                        x = getattr(v, n)
                        if isinstance(x, str) and n == 'doid':
                            x = R(x)
                        todo.append(x)
    return out


class NoInput(Exception):
    pass


def known(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=' + pid + ' '):
                out.append(l[len('finding: property=' + pid + ' '):].strip())
    return out


def share(c, spec):
    """run the scenarios of a property in parallel processes"""
    import pickle
    n = 1 if os.environ.get('SA_DEBUG') else min(8, os.cpu_count() or 1)
    if n == 1:
        return spec(c)
    sys.stdout.flush()
    kids = []
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            c.shard = (i, n)
            try:
                spec(c)
                res = (None, c.results, c.scen, c.paths, c.cuts, c.lims, set(c.I.visited), c.notes)
            except AnalysisBroken as e:
                res = ('broken', str(e))
            except BaseException as e:
                res = ('error', f'{type(e).__name__}: {e}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    bad = None
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            res = pickle.loads(data)
        except Exception:
            res = ('error', 'an analysis process ended')
        if res[0] is not None:
            bad = res
            continue
        _, results, c.scen, paths, cuts, lims, vis, notes = res
        c.results += results
        c.paths += paths
        c.cuts |= cuts
        c.lims |= lims
        c.I.visited |= vis
        c.notes = notes
    if bad:
        if bad[0] == 'broken' or not c.results:
            raise AnalysisBroken(bad[1])
        c.record('analysis', UNDECIDED, bad[1], None, '')


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    mod = importlib.import_module('props')
    spec = mod.PROPS[pid]
    try:
        c = Check(pid, tier, seed, **getattr(spec, 'opts', {}))
        share(c, spec)
    except AnalysisBroken as e:
        print(f'NO ANSWER property={pid}: {e}')
        write_evidence(pid, tier, seed, t0, None, [], str(e))
        return 2
    except RecursionError as e:
        print(f'NO ANSWER property={pid}: {e}')
        return 2
    cnt = {PROVED: 0, REFUTED: 0, UNDECIDED: 0}
    for r in c.results:
        cnt[r['status']] += 1
    bad = [r for r in c.results if r['status'] == REFUTED]
    und = [r for r in c.results if r['status'] == UNDECIDED]
    print(f'{pid} [{tier}]: {c.scen} scenarios, {c.paths} paths, {len(c.I.visited)} functions analysed; '
          f'obligations: {cnt[PROVED]} proved, {cnt[REFUTED]} refuted, {cnt[UNDECIDED]} undecided ({time.time() - t0:.1f}s)')
    shown = {}
    for r in und:
        k = (r['obligation'], r['why'])
        shown[k] = shown.get(k, 0) + 1
    for (o, w), n in list(shown.items())[:40 if verbose else 6]:
        print(f'  undecided {o}: {w}' + (f' (x{n})' if n > 1 else ''))
    if verbose:
        for l in sorted(c.lims)[:30]:
            print('  limit:', l)
        for l in sorted(c.cuts)[:30]:
            print('  bounded loop:', l)
    rc = 0
    replay = os.path.join(VERIF, 'evidence', f'replay_{pid}.json')
    if bad:
        kn = known(pid)
        new = [r for r in bad if not any(f'{r["obligation"]} ' in k + ' ' for k in kn)]
        for k in kn:
            print(f'KNOWN-FINDING: property={pid} {k}')
        if new:
            with open(replay, 'w') as f:
                json.dump(new[:20], f, indent=1)
            seen = set()
            for r in new:
                k = (r['obligation'], r['where'])
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) > 8:
                    break
                print(f'  violated: {r["obligation"]} {r["what"]}\n    at {r["where"]}\n    {r["why"][:600]}')
                if r['data']:
                    print('    with ' + ', '.join(f'{k}={v}' for k, v in r['data']['point'].items())[:500])
            print(f'VIOLATION property={pid} replay={replay}')
            rc = 1
    write_evidence(pid, tier, seed, t0, c, bad, None, cnt, shown)
    if rc == 0 and cnt[PROVED] == 0:
        print(f'NO ANSWER property={pid}: nothing could be decided')
        return 2
    return rc


def write_evidence(pid, tier, seed, t0, c, bad, broken=None, cnt=None, shown=None):
    cov = dict(explanation='')
    if c is None:
        cov['explanation'] = 'analysis not possible: ' + str(broken)
    else:
        obs = {}
        for r in c.results:
            d = obs.setdefault(r['obligation'], {PROVED: 0, REFUTED: 0, UNDECIDED: 0})
            d[r['status']] += 1
        cov = dict(
            explanation='Abstract interpretation of the current source: every path of the analysed functions for the input '
                        'shapes of each scenario (numbers stay symbolic); each path outcome is compared in normal form with '
                        'what the property demands.',
            modules=sorted(m.path for m in c.P.modules.values()),
            functions_analysed=sorted(c.I.visited),
            scenarios=c.scen, paths=c.paths,
            obligations=dict(total=len(c.results), proved=cnt[PROVED], refuted=cnt[REFUTED], undecided=cnt[UNDECIDED]),
            by_obligation=obs,
            undecided=[f'{o}: {w}' for (o, w) in list(shown)[:40]],
            bounded_loops=sorted(c.cuts),
            notes=c.notes)
    e = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2),
             violations=len(bad) if c is not None else 0)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(e, f, indent=1)


if __name__ == '__main__':
    sys.modules.setdefault('check', sys.modules['__main__'])
    sys.exit(main(sys.argv[1:]))
