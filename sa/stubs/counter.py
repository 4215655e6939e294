"""collections.Counter, as a class that is analysed together with the package (never executed)."""


class Counter:
    def __init__(self, iterable=None, /, **kwds):
        self._d = {}
        self.update(iterable, **kwds)

    def update(self, iterable=None, /, **kwds):
        if iterable is not None:
            if isinstance(iterable, (dict, Counter)):
                for k, n in iterable.items():
                    self._d[k] = self._d.get(k, 0) + n
            else:
                for k in iterable:
                    self._d[k] = self._d.get(k, 0) + 1
        for k in kwds:
            self._d[k] = self._d.get(k, 0) + kwds[k]

    def subtract(self, iterable=None, /, **kwds):
        if iterable is not None:
            if isinstance(iterable, (dict, Counter)):
                for k, n in iterable.items():
                    self._d[k] = self._d.get(k, 0) - n
            else:
                for k in iterable:
                    self._d[k] = self._d.get(k, 0) - 1
        for k in kwds:
            self._d[k] = self._d.get(k, 0) - kwds[k]

    def __getitem__(self, k):
        return self._d.get(k, 0)

    def __setitem__(self, k, v):
        self._d[k] = v

    def __delitem__(self, k):
        if k in self._d:
            del self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def get(self, k, default=None):
        return self._d.get(k, default)

    def setdefault(self, k, default=None):
        return self._d.setdefault(k, default)

    def pop(self, k, *default):
        return self._d.pop(k, *default)

    def clear(self):
        self._d.clear()

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()

    def total(self):
        return sum(self._d.values())

    def elements(self):
        for k, n in self._d.items():
            for _ in range(n):
                yield k

    def most_common(self, n=None):
        r = sorted(self._d.items(), key=lambda x: x[1], reverse=True)
        return r if n is None else r[:n]

    def copy(self):
        return Counter(self)

    def __eq__(self, other):
        if isinstance(other, Counter):
            for k in self._d:
                if self._d[k] != other[k]:
                    return False
            for k in other._d:
                if self[k] != other._d[k]:
                    return False
            return True
        if isinstance(other, dict):
            return self._d == other
        return NotImplemented

    __hash__ = None

    def __le__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        return all(self[k] <= other[k] for k in self._d) and all(self[k] <= other[k] for k in other._d)

    def __ge__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        return other <= self

    def __lt__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        return self <= other and self != other

    def __gt__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        return other < self

    def __add__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        r = Counter()
        for k in self._d:
            if self[k] + other[k] > 0:
                r[k] = self[k] + other[k]
        for k in other._d:
            if k not in self._d and other[k] > 0:
                r[k] = other[k]
        return r

    def __sub__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        r = Counter()
        for k in self._d:
            if self[k] - other[k] > 0:
                r[k] = self[k] - other[k]
        for k in other._d:
            if k not in self._d and other[k] < 0:
                r[k] = 0 - other[k]
        return r

    def __or__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        r = Counter()
        for k in list(self._d) + [k for k in other._d if k not in self._d]:
            n = max(self[k], other[k])
            if n > 0:
                r[k] = n
        return r

    def __and__(self, other):
        if not isinstance(other, Counter):
            return NotImplemented
        r = Counter()
        for k in self._d:
            n = min(self[k], other[k])
            if n > 0:
                r[k] = n
        return r
