"""fractions.Fraction, as a class that is analysed together with the package (never executed)."""
import math


class Fraction:
    def __init__(self, numerator=0, denominator=None):
        if denominator is None:
            if isinstance(numerator, int):
                n, d = int(numerator), 1
            elif isinstance(numerator, Fraction):
                n, d = numerator._numerator, numerator._denominator
            elif isinstance(numerator, float):
                n, d = numerator.as_integer_ratio()
            elif isinstance(numerator, str):
                n, d = _parsed(numerator)
            else:
                raise TypeError('argument should be a string or a Rational instance')
        elif isinstance(numerator, int) and isinstance(denominator, int):
            n, d = numerator, denominator
            if d == 0:
                raise ZeroDivisionError(f'Fraction({n}, 0)')
            g = math.gcd(n, d)
            if d < 0:
                g = -g
            n //= g
            d //= g
        elif isinstance(numerator, (int, Fraction)) and isinstance(denominator, (int, Fraction)):
            q = Fraction(numerator) / Fraction(denominator)
            n, d = q._numerator, q._denominator
        else:
            raise TypeError('both arguments should be Rational instances')
        self._numerator = n
        self._denominator = d

    @property
    def numerator(self):
        return self._numerator

    @property
    def denominator(self):
        return self._denominator

    @classmethod
    def from_float(cls, f):
        return cls(f)

    def as_integer_ratio(self):
        return (self._numerator, self._denominator)

    def is_integer(self):
        return self._denominator == 1

    def limit_denominator(self, max_denominator=1000000):
        if max_denominator < 1:
            raise ValueError('max_denominator should be at least 1')
        if self._denominator <= max_denominator:
            return Fraction(self)
        p0, q0, p1, q1 = 0, 1, 1, 0
        n, d = self._numerator, self._denominator
        while True:
            a = n // d
            q2 = q0 + a * q1
            if q2 > max_denominator:
                break
            p0, q0, p1, q1 = p1, q1, p0 + a * p1, q2
            n, d = d, n - a * d
        k = (max_denominator - q0) // q1
        if 2 * d * (q0 + k * q1) <= self._denominator:
            return Fraction(p1, q1)
        return Fraction(p0 + k * p1, q0 + k * q1)

    def __repr__(self):
        return f'Fraction({self._numerator}, {self._denominator})'

    def __str__(self):
        if self._denominator == 1:
            return str(self._numerator)
        return f'{self._numerator}/{self._denominator}'

    def __add__(self, other):
        if isinstance(other, float):
            return float(self) + other
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return Fraction(self._numerator * o._denominator + o._numerator * self._denominator, self._denominator * o._denominator)

    def __radd__(self, other):
        return self + other

    def __sub__(self, other):
        if isinstance(other, float):
            return float(self) - other
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return Fraction(self._numerator * o._denominator - o._numerator * self._denominator, self._denominator * o._denominator)

    def __rsub__(self, other):
        return -self + other

    def __mul__(self, other):
        if isinstance(other, float):
            return float(self) * other
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return Fraction(self._numerator * o._numerator, self._denominator * o._denominator)

    def __rmul__(self, other):
        return self * other

    def __truediv__(self, other):
        if isinstance(other, float):
            return float(self) / other
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return Fraction(self._numerator * o._denominator, self._denominator * o._numerator)

    def __rtruediv__(self, other):
        if isinstance(other, float):
            return other / float(self)
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        return Fraction(other) / self

    def __floordiv__(self, other):
        if isinstance(other, float):
            return float(self) // other
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return (self._numerator * o._denominator) // (self._denominator * o._numerator)

    def __rfloordiv__(self, other):
        if isinstance(other, float):
            return other // float(self)
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        return Fraction(other) // self

    def __mod__(self, other):
        if isinstance(other, float):
            return float(self) % other
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        return self - Fraction(other) * (self // other)

    def __rmod__(self, other):
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        return Fraction(other) % self

    def __divmod__(self, other):
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        return (self // other, self % other)

    def __pow__(self, other):
        if isinstance(other, int):
            if other >= 0:
                return Fraction(self._numerator ** other, self._denominator ** other)
            return Fraction(self._denominator ** -other, self._numerator ** -other)
        return float(self) ** float(other)

    def __pos__(self):
        return Fraction(self)

    def __neg__(self):
        return Fraction(-self._numerator, self._denominator)

    def __abs__(self):
        return Fraction(abs(self._numerator), self._denominator)

    def __int__(self):
        return self.__trunc__()

    def __float__(self):
        return self._numerator / self._denominator

    def __trunc__(self):
        if self._numerator < 0:
            return -(-self._numerator // self._denominator)
        return self._numerator // self._denominator

    def __floor__(self):
        return self._numerator // self._denominator

    def __ceil__(self):
        return -(-self._numerator // self._denominator)

    def __round__(self, ndigits=None):
        if ndigits is None:
            q, r = self._numerator // self._denominator, self._numerator % self._denominator
            if r * 2 < self._denominator:
                return q
            if r * 2 > self._denominator:
                return q + 1
            if q % 2 == 0:
                return q
            return q + 1
        shift = 10 ** abs(ndigits)
        if ndigits > 0:
            return Fraction(round(self * shift), shift)
        return Fraction(round(self / shift) * shift)

    def __bool__(self):
        return self._numerator != 0

    def __hash__(self):
        if self._denominator == 1:
            return hash(self._numerator)
        return hash(('fraction', self._numerator, self._denominator))

    def __eq__(self, other):
        if isinstance(other, int):
            return self._denominator == 1 and self._numerator == other
        if isinstance(other, Fraction):
            return self._numerator == other._numerator and self._denominator == other._denominator
        if isinstance(other, float):
            return float(self) == other and self == Fraction(other)
        return NotImplemented

    def __lt__(self, other):
        if isinstance(other, float):
            other = Fraction(other)
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return self._numerator * o._denominator < o._numerator * self._denominator

    def __le__(self, other):
        if isinstance(other, float):
            other = Fraction(other)
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return self._numerator * o._denominator <= o._numerator * self._denominator

    def __gt__(self, other):
        if isinstance(other, float):
            other = Fraction(other)
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return self._numerator * o._denominator > o._numerator * self._denominator

    def __ge__(self, other):
        if isinstance(other, float):
            other = Fraction(other)
        if not isinstance(other, (int, Fraction)):
            return NotImplemented
        o = Fraction(other)
        return self._numerator * o._denominator >= o._numerator * self._denominator

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _parsed(text):
    a, slash, b = text.strip().partition('/')
    return int(a), int(b) if slash else 1
