"""Functions and classes of the standard library, as source that is analysed together with the package (never executed)."""
import struct


class _Missing:
    pass


islice_missing = _Missing()


def iter_until(f, stop):
    while True:
        v = f()
        if v == stop:
            return
        yield v


# ------------------------------------------------------------------ functools
def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _cached(maxsize, 128, False)
    return lambda f: _cached(f, maxsize, typed)


def cache(f):
    return _cached(f, None, False)


def _cached(f, maxsize, typed):
    memo = {}

    def wrapper(*args, **kwargs):
        key = (args, tuple(kwargs.items()))
        if typed:
            key = (key, tuple(type(x) for x in args))
        if maxsize == 0:
            return f(*args, **kwargs)
        if key in memo:
            return memo[key]
        r = f(*args, **kwargs)
        memo[key] = r
        return r
    wrapper.cache_clear = memo.clear
    wrapper.__wrapped__ = f
    return wrapper


class singledispatch:
    def __init__(self, f):
        self._default = f
        self._table = []

    def register(self, cls, f=None):
        if f is None:
            if isinstance(cls, type):
                return lambda g: self.register(cls, g)
            f = cls
            cls = list(f.__annotations__.values())[0]
        self._table.append((cls, f))
        return f

    def dispatch(self, x):
        best = None
        for cls, f in self._table:
            if isinstance(x, cls):
                if best is None or issubclass(cls, best[0]):
                    best = (cls, f)
        return self._default if best is None else best[1]

    def __call__(self, *args, **kwargs):
        return self.dispatch(args[0])(*args, **kwargs)


# ------------------------------------------------------------------ contextlib
class suppress:
    def __init__(self, *excs):
        self._excs = excs

    def __enter__(self):
        return None

    def __exit__(self, kind, value, trace):
        return kind is not None and issubclass(kind, self._excs)


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, kind, value, trace):
        self.thing.close()


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, kind, value, trace):
        return None


# ------------------------------------------------------------------ threading and the like
class Lock:
    def __init__(self):
        self._held = 0

    def acquire(self, blocking=True, timeout=-1):
        self._held += 1
        return True

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held -= 1

    def locked(self):
        return self._held > 0

    def __enter__(self):
        self._held += 1
        return True

    def __exit__(self, kind, value, trace):
        self._held -= 1


class Namespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class _Token:
    def __init__(self, old):
        self.old = old


class ContextVar:
    def __init__(self, name, *, default=_Token):
        self.name = name
        self._value = default

    def get(self, *default):
        if self._value is _Token:
            if default:
                return default[0]
            raise LookupError(self.name)
        return self._value

    def set(self, value):
        t = _Token(self._value)
        self._value = value
        return t

    def reset(self, token):
        self._value = token.old


class WeakDict:
    def __init__(self, other=()):
        self._d = {}

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def get(self, k, default=None):
        return self._d.get(k, default)

    def setdefault(self, k, default=None):
        return self._d.setdefault(k, default)

    def pop(self, k, *default):
        return self._d.pop(k, *default)

    def clear(self):
        self._d.clear()

    def items(self):
        return list(self._d.items())

    def keys(self):
        return list(self._d.keys())

    def values(self):
        return list(self._d.values())


# ------------------------------------------------------------------ collections
class bounded_deque:
    def __init__(self, iterable=(), maxlen=0):
        self.maxlen = maxlen
        self._l = []
        for x in iterable:
            self.append(x)

    def append(self, x):
        self._l.append(x)
        if len(self._l) > self.maxlen:
            self._l.pop(0)

    def appendleft(self, x):
        self._l.insert(0, x)
        if len(self._l) > self.maxlen:
            self._l.pop()

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def pop(self):
        return self._l.pop()

    def popleft(self):
        return self._l.pop(0)

    def clear(self):
        self._l.clear()

    def __iter__(self):
        return iter(self._l)

    def __reversed__(self):
        return reversed(self._l)

    def __len__(self):
        return len(self._l)

    def __getitem__(self, i):
        return self._l[i]

    def __contains__(self, x):
        return x in self._l

    def index(self, x):
        return self._l.index(x)

    def count(self, x):
        return self._l.count(x)

    def __eq__(self, other):
        return self._l == list(other)


# ------------------------------------------------------------------ bisect, heapq
def bisect_left(a, x, lo=0, hi=None, *, key=None):
    if lo < 0:
        raise ValueError('lo must be non-negative')
    hi = len(a) if hi is None else hi
    i = lo
    while i < hi and (a[i] if key is None else key(a[i])) < x:
        i += 1
    return i


def bisect_right(a, x, lo=0, hi=None, *, key=None):
    if lo < 0:
        raise ValueError('lo must be non-negative')
    hi = len(a) if hi is None else hi
    i = lo
    while i < hi and not x < (a[i] if key is None else key(a[i])):
        i += 1
    return i


def nsmallest(n, iterable, key=None):
    return sorted(iterable, key=key)[:max(n, 0)]


def nlargest(n, iterable, key=None):
    return sorted(iterable, key=key, reverse=True)[:max(n, 0)]


# ------------------------------------------------------------------ itertools
class count:
    def __init__(self, start=0, step=1):
        self._n = start
        self._step = step

    def __iter__(self):
        return self

    def __next__(self):
        n = self._n
        self._n = n + self._step
        return n


def cycle(iterable):
    l = []
    for x in iterable:
        yield x
        l.append(x)
    while l:
        for x in l:
            yield x


def takewhile(p, iterable):
    for x in iterable:
        if not p(x):
            return
        yield x


def dropwhile(p, iterable):
    skipping = True
    for x in iterable:
        if skipping and p(x):
            continue
        skipping = False
        yield x


def islice(iterable, start, stop=islice_missing, step=1):
    if stop is islice_missing:
        start, stop = 0, start
    start = 0 if start is None else start
    step = 1 if step is None else step
    it = iter(iterable)
    i = 0
    while stop is None or i < stop:
        try:
            x = next(it)
        except StopIteration:
            return
        if i >= start and (i - start) % step == 0:
            yield x
        i += 1


def filterfalse(p, iterable):
    for x in iterable:
        if not (x if p is None else p(x)):
            yield x


def compress(data, selectors):
    for x, s in zip(data, selectors):
        if s:
            yield x


def groupby(iterable, key=None):
    group, last = [], None
    for x in iterable:
        k = x if key is None else key(x)
        if group and k == last:
            group.append(x)
        else:
            if group:
                yield last, iter(group)
            group, last = [x], k
    if group:
        yield last, iter(group)


def batched(iterable, n, *, strict=False):
    if n < 1:
        raise ValueError('n must be at least one')
    batch = []
    for x in iterable:
        batch.append(x)
        if len(batch) == n:
            yield tuple(batch)
            batch = []
    if batch:
        if strict:
            raise ValueError('batched(): incomplete batch')
        yield tuple(batch)


def product(*iterables, repeat=1):
    pools = [tuple(x) for x in iterables] * repeat
    result = [[]]
    for pool in pools:
        result = [x + [y] for x in result for y in pool]
    for r in result:
        yield tuple(r)


def combinations(iterable, r):
    pool = tuple(iterable)
    if r == 0:
        yield ()
        return
    for i in range(len(pool)):
        for rest in combinations(pool[i + 1:], r - 1):
            yield (pool[i],) + rest


# ------------------------------------------------------------------ enum
class IntEnum:
    def __int__(self):
        return self.value

    def __index__(self):
        return self.value

    def __hash__(self):
        return hash(self.value)

    def __bool__(self):
        return self.value != 0

    def __str__(self):
        return str(self.value)

    def __format__(self, spec):
        return format(self.value, spec)

    def __eq__(self, other):
        return self.value == other

    def __ne__(self, other):
        return self.value != other

    def __lt__(self, other):
        return self.value < other

    def __le__(self, other):
        return self.value <= other

    def __gt__(self, other):
        return self.value > other

    def __ge__(self, other):
        return self.value >= other

    def __add__(self, other):
        return self.value + other

    def __radd__(self, other):
        return other + self.value

    def __sub__(self, other):
        return self.value - other

    def __rsub__(self, other):
        return other - self.value

    def __mul__(self, other):
        return self.value * other

    def __rmul__(self, other):
        return other * self.value

    def __floordiv__(self, other):
        return self.value // other

    def __mod__(self, other):
        return self.value % other

    def __and__(self, other):
        return self.value & other

    def __rand__(self, other):
        return other & self.value

    def __or__(self, other):
        return self.value | other

    def __ror__(self, other):
        return other | self.value

    def __xor__(self, other):
        return self.value ^ other

    def __lshift__(self, other):
        return self.value << other

    def __rshift__(self, other):
        return self.value >> other

    def __neg__(self):
        return -self.value

    def __invert__(self):
        return ~self.value

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        return self.value.to_bytes(length, byteorder, signed=signed)

    def bit_length(self):
        return self.value.bit_length()


# ------------------------------------------------------------------ struct
class Struct:
    def __init__(self, format):
        self.format = format
        self.size = struct.calcsize(format)

    def pack(self, *values):
        return struct.pack(self.format, *values)

    def unpack(self, data):
        return struct.unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return struct.unpack_from(self.format, data, offset)

    def iter_unpack(self, data):
        return iter_unpack(self.format, data)


def iter_unpack(format, data):
    size = struct.calcsize(format)
    if len(data) % size:
        raise struct.error('size')
    for i in range(0, len(data), size):
        yield struct.unpack(format, data[i:i + size])
