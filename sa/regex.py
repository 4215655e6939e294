"""Languages of regular expressions (ASCII alphabet): automata, equivalence, groups."""
import functools
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

ALPHA = [chr(i) for i in range(128)]
ALL = frozenset(ALPHA)


class Unsupported(Exception):
    pass


def _cat(c, neg=False):
    n = str(c)
    if 'DIGIT' in n:
        s = frozenset('0123456789')
    elif 'SPACE' in n:
        s = frozenset(x for x in ALPHA if x.isspace())
    elif 'WORD' in n:
        s = frozenset(x for x in ALPHA if x.isalnum() or x == '_')
    else:
        raise Unsupported(n)
    return ALL - s if 'NOT_' in n else s


def _set(av, flags):
    s, neg = set(), False
    for op, a in av:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            if a < 128:
                s.add(chr(a))
        elif op is sc.RANGE:
            s |= {chr(i) for i in range(a[0], min(a[1], 127) + 1)}
        elif op is sc.CATEGORY:
            s |= _cat(a)
        else:
            raise Unsupported(str(op))
    if flags & re.IGNORECASE:
        s |= {c.swapcase() for c in s}
    return ALL - s if neg else frozenset(s)


class NFA:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


def build(items, flags, n, start, end_ok=None):
    """append the sequence of parse items; returns the end state"""
    cur = start
    items = list(items)
    for i, (op, av) in enumerate(items):
        nxt = n.new()
        if op is sc.LITERAL:
            s = {chr(av)} if av < 128 else set()
            if flags & re.IGNORECASE:
                s |= {c.swapcase() for c in s}
            n.tr[cur].append((frozenset(s), nxt))
        elif op is sc.NOT_LITERAL:
            n.tr[cur].append((ALL - {chr(av)}, nxt))
        elif op is sc.ANY:
            n.tr[cur].append((ALL if flags & re.DOTALL else ALL - {'\n'}, nxt))
        elif op is sc.IN:
            n.tr[cur].append((_set(av, flags), nxt))
        elif op is sc.BRANCH:
            for b in av[1]:
                s = n.new()
                n.eps[cur].append(s)
                e = build(b, flags, n, s)
                n.eps[e].append(nxt)
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported('inline flags')
            e = build(av[3], flags, n, cur)
            n.eps[e].append(nxt)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            c = cur
            for _ in range(lo):
                c = build(sub, flags, n, c)
            if hi is sc.MAXREPEAT:
                loop = n.new()
                n.eps[c].append(loop)
                e = build(sub, flags, n, loop)
                n.eps[e].append(loop)
                n.eps[loop].append(nxt)
            else:
                if hi - lo > 50:
                    raise Unsupported('large repeat')
                n.eps[c].append(nxt)
                for _ in range(hi - lo):
                    c = build(sub, flags, n, c)
                    n.eps[c].append(nxt)
        elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if cur != 0:
                raise Unsupported('anchor')
            n.eps[cur].append(nxt)
        else:
            raise Unsupported(str(op))
        cur = nxt
    return cur


def closure(n, S):
    st, seen = list(S), set(S)
    while st:
        x = st.pop()
        for y in n.eps[x]:
            if y not in seen:
                seen.add(y)
                st.append(y)
    return frozenset(seen)


class DFA:
    """complete DFA over ASCII; 0 is the start state"""

    def __init__(self, n, start, accept):
        self.tr, self.acc = [], []
        s0 = closure(n, {start})
        ids, work = {s0: 0}, [s0]
        rows = []
        while work:
            S = work.pop(0)
            row = {}
            moves = [(cs, t) for x in S for cs, t in n.tr[x]]
            cache = {}
            for ch in ALPHA:
                tg = frozenset(t for cs, t in moves if ch in cs)
                if tg not in cache:
                    cache[tg] = closure(n, tg)
                T = cache[tg]
                if T not in ids:
                    if len(ids) > 400:
                        raise Unsupported('automaton too large')
                    ids[T] = len(ids)
                    work.append(T)
                row[ch] = ids[T]
            rows.append((row, accept in S))
        self.tr = [r for r, _ in rows]
        self.acc = [a for _, a in rows]

    def accepts(self, w):
        q = 0
        for c in w:
            if c not in self.tr[q]:
                return None
            q = self.tr[q][c]
        return self.acc[q]


def _strip_end(items):
    """(items without a final end anchor, kind of anchor)"""
    items = list(items)
    if items and items[-1][0] is sc.AT:
        if items[-1][1] is sc.AT_END:
            return items[:-1], '$'
        if items[-1][1] is sc.AT_END_STRING:
            return items[:-1], 'Z'
    return items, None


@functools.lru_cache(None)
def language(pattern, flags, how):
    """DFA of the strings for which re.<how>(pattern, string) succeeds"""
    tree = sp.parse(pattern, flags)
    fl = tree.state.flags
    if fl & (re.VERBOSE | re.MULTILINE) and fl & re.MULTILINE:
        raise Unsupported('multiline')
    items, end = _strip_end(tree)
    n = NFA()
    s = n.new()
    if how == 'search' and not (items and items[0][0] is sc.AT):
        n.tr[s].append((ALL, s))
        s2 = n.new()
        n.eps[s].append(s2)
        e = build(items, fl, n, s2)
    else:
        e = build(items, fl, n, s)
    acc = n.new()
    n.eps[e].append(acc)
    if how in ('match', 'search'):
        if end is None:
            n.tr[acc].append((ALL, acc))
        elif end == '$':
            a2 = n.new()
            n.tr[acc].append((frozenset('\n'), a2))
            f = n.new()
            n.eps[acc].append(f)
            n.eps[a2].append(f)
            acc = f
    return DFA(n, s, acc)


def difference(d1, d2, limit=6):
    """shortest strings on which two automata disagree: [(string, in1, in2)]"""
    from collections import deque
    seen, q, out = {(0, 0)}, deque([(0, 0, '')]), []
    while q:
        a, b, w = q.popleft()
        if d1.acc[a] != d2.acc[b]:
            out.append((w, d1.acc[a], d2.acc[b]))
            if len(out) >= limit:
                break
        for c in ALPHA:
            t = (d1.tr[a][c], d2.tr[b][c])
            if t not in seen:
                seen.add(t)
                q.append((t[0], t[1], w + c))
    return out


# ------------------------------------------------------------------- groups

@functools.lru_cache(None)
def _groups(pattern, flags):
    """index -> (parse items, optional?, repeated?)"""
    tree = sp.parse(pattern, flags)
    out = {}

    def walk(items, opt, rep):
        for op, av in items:
            if op is sc.SUBPATTERN:
                if av[0] is not None:
                    out[av[0]] = (list(av[3]), opt, rep)
                walk(av[3], opt, rep)
            elif op is sc.BRANCH:
                for b in av[1]:
                    walk(b, True, rep)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                walk(av[2], opt or av[0] == 0, rep or av[1] != 1)
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                walk(av[1], True, rep)
    walk(tree, False, False)
    return out, tree.state.flags


def _grp(a):
    p, fl, how, subj, gi = a.args
    if gi == 0:
        tree = sp.parse(p, fl)
        return list(tree), False, False, tree.state.flags
    g, f = _groups(p, fl)
    return g[gi] + (f,)


def group_optional(a):
    return _grp(a)[1]


@functools.lru_cache(None)
def _gdfa(key, a):
    items, opt, rep, fl = _grp(a)
    items, _ = _strip_end(items)
    n = NFA()
    s = n.new()
    e = build(items, fl, n, s)
    return DFA(n, s, e)


def gdfa(a):
    try:
        return _gdfa(a.key, a)
    except Unsupported:
        return None


def _live(d):
    rev = {}
    for q, row in enumerate(d.tr):
        for t in row.values():
            rev.setdefault(t, set()).add(q)
    live = {q for q, x in enumerate(d.acc) if x}
    st = list(live)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in live:
                live.add(y)
                st.append(y)
    return live


def group_alphabet(a):
    d = gdfa(a)
    if d is None:
        return None
    live = _live(d)
    reach, st = {0}, [0]
    out = set()
    while st:
        q = st.pop()
        for c, t in d.tr[q].items():
            if t in live:
                out.add(c)
                if t not in reach:
                    reach.add(t)
                    st.append(t)
    return out


def group_language(a, limit=64):
    """the finite set of strings of a group, or None"""
    d = gdfa(a)
    if d is None:
        return None
    live = _live(d)
    out, level = set(), [(0, '')]
    for depth in range(8):
        nx = []
        for q, w in level:
            if d.acc[q]:
                out.add(w)
            for c, t in d.tr[q].items():
                if t in live:
                    nx.append((t, w + c))
        if len(nx) > limit or len(out) > limit:
            return None
        level = nx
        if not level:
            return out
    return None


def group_may_be_empty(a):
    d = gdfa(a)
    return True if d is None else d.acc[0]


INTRE = r'[+-]?[0-9]+'


def is_int_group(a):
    """every string of the group is an integer literal int() accepts"""
    d = gdfa(a)
    if d is None:
        return False
    i = language(INTRE, 0, 'fullmatch')
    return not any(x and not y for _, x, y in difference(d, i, 40))


def same_language(a, pattern):
    d = gdfa(a)
    return d is not None and not difference(d, language(pattern, 0, 'fullmatch'))
