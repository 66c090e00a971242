"""Symbolic stand-ins for Python values.

Every operation either returns an exact symbolic result, forks the path
(truth values), or raises ``Limit`` (a BaseException), in which case the
driver decides the rest of that path on solver-chosen concrete values and
says so in the evidence.
"""

import datetime as _dt
import fractions

import z3

Limit = None  # set by engine

_EPOCH = _dt.datetime(1, 1, 1, tzinfo=_dt.timezone.utc)
US = 1_000_000


def dt_us(d):
    if isinstance(d, SymDT):
        return d.e
    delta = d - _EPOCH
    return (delta.days * 86400 + delta.seconds) * US + delta.microseconds


def us_dt(us):
    return _EPOCH + _dt.timedelta(microseconds=us)


def td_us(d):
    if isinstance(d, SymTD):
        return d.e
    return (d.days * 86400 + d.seconds) * US + d.microseconds


def zbool(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, SymInt):
        return c.e != 0
    if isinstance(c, z3.ExprRef):
        return c
    return z3.BoolVal(bool(c))


def zint(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(int(x))


class _Sym:
    __slots__ = ("ctx", "e")
    _sym = True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        raise Limit(f"pickling {type(self).__name__}")

    def __format__(self, spec):
        return f"<{type(self).__name__}>"

    def __str__(self):
        return f"<{type(self).__name__}>"

    __repr__ = __str__


class SymBool(_Sym):
    def __init__(self, ctx, e):
        self.ctx = ctx
        self.e = e

    def __bool__(self):
        return self.ctx.fork(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.ctx, z3.And(self.e, zbool(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.ctx, z3.Or(self.e, zbool(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(self.ctx, z3.Xor(self.e, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(self.ctx, z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.ctx, self.e == zbool(o))
        if isinstance(o, (int, SymInt)):
            return SymBool(self.ctx, zint(self) == zint(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return SymInt(self.ctx, zint(self)) + o

    __radd__ = __add__


def _num(ctx, x):
    """-> (z3 expr, is_real) or None"""
    if isinstance(x, SymInt):
        return x.e, False
    if isinstance(x, SymBool):
        return zint(x), False
    if isinstance(x, SymReal):
        return x.e, True
    if isinstance(x, bool):
        return z3.IntVal(int(x)), False
    if isinstance(x, int):
        return z3.IntVal(x), False
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        f = fractions.Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}"), True
    return None


def toreal(e):
    return z3.ToReal(e) if z3.is_int(e) else e


# Float rounding: the exact real result of a float operation is off by at most
# half an ulp, i.e. 2**-53 of a static bound on its magnitude.  (Exactness on
# integers is not modelled: an over-approximation.)
TIME_MAG = 10**11  # seconds; year 3169
INT_MAG = 2**53


def rounded(ctx, e, mag):
    if mag == 0:
        return SymReal(ctx, e, mag)
    e = z3.simplify(e)
    key = ("fl", e.get_id())
    if key in ctx.memo:  # the same operation rounds the same way
        return SymReal(ctx, ctx.memo[key][0], mag)
    v = z3.Real(ctx.fresh("fl"))
    ctx.memo[key] = (v, e)
    err = z3.RealVal(str(fractions.Fraction(mag) / 2**53))
    ctx.add(z3.And(v - e <= err, e - v <= err))
    return SymReal(ctx, v, mag)


def intreal(ctx, e, mag):
    """A float that is this integer."""
    r = SymReal(ctx, z3.ToReal(e), mag)
    if getattr(ctx, "exact_ints", False):
        r.iz = e
    return r


def floor_real(ctx, e):
    """floor(e) as an integer variable with linear constraints."""
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long() // e.denominator_as_long())
    key = ("floor", e.get_id())
    if key in ctx.memo:
        return ctx.memo[key][0]
    n = z3.Int(ctx.fresh("flr"))
    ctx.memo[key] = (n, e)
    ctx.add(z3.And(z3.ToReal(n) <= e, e < z3.ToReal(n) + 1))
    # valid lemmas that let z3 branch on differences of floors
    for k, v in list(ctx.memo.items()):
        if k[0] == "floor" and k != key:
            o = v[0]
            ctx.add(
                z3.Or(n <= o - 2, n == o - 1, n == o, n == o + 1, n >= o + 2)
            )
    return n


def _mag(x):
    if isinstance(x, (SymReal, SymInt)):
        return x.mag
    if isinstance(x, (int, float)):
        return abs(x)
    return INT_MAG


class SymInt(_Sym):
    __slots__ = ("mag", "_c")

    def __init__(self, ctx, e, mag=INT_MAG):
        self.ctx = ctx
        self.e = e
        self.mag = mag
        self._c = None

    # arithmetic
    def _bin(self, o, f, rev=False, mul=False):
        n = _num(self.ctx, o)
        if n is None:
            return NotImplemented
        oe, real = n
        mag = self.mag * _mag(o) if mul else self.mag + _mag(o)
        a, b = self.e, oe
        if real:
            s = intreal(self.ctx, a, self.mag)
            i = s._iz(o)
            if i is not None and mag < 2**53:
                return intreal(self.ctx, f(i, a) if rev else f(a, i), mag)
            a = toreal(a)
            if rev:
                a, b = b, a
            return rounded(self.ctx, f(a, b), mag)
        if rev:
            a, b = b, a
        return mkint(self.ctx, f(a, b), mag)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray)) or hasattr(o, "_symbytes"):
            from . import symbytes

            return symbytes.repeat(self.ctx, o, self)
        if isinstance(o, _dt.timedelta):
            return SymTD(self.ctx, self.e * td_us(o))
        if isinstance(o, (list, tuple, str)):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b, mul=True)

    def __rmul__(self, o):
        if isinstance(
            o, (bytes, bytearray, list, tuple, str, _dt.timedelta)
        ) or hasattr(o, "_symbytes"):
            return self.__mul__(o)
        return self._bin(o, lambda a, b: a * b, True, mul=True)

    def _divisor(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if isinstance(o, float) and o.is_integer():
            return o
        if isinstance(o, bool) or not isinstance(o, (int, float)):
            return None
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return o

    def __floordiv__(self, o):
        d = self._divisor(o)
        if d is None:
            return NotImplemented
        if isinstance(d, float):
            return intreal(
                self.ctx, floordiv(self.e, int(d)), self.mag / abs(d) + 1
            )
        return mkint(self.ctx, floordiv(self.e, d), self.mag / abs(d) + 1)

    def __mod__(self, o):
        d = self._divisor(o)
        if d is None:
            return NotImplemented
        r = floormod(self.e, int(d))
        if isinstance(d, float):
            return intreal(self.ctx, r, abs(d))
        return mkint(self.ctx, r, abs(d))

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)

    def __truediv__(self, o):
        n = _num(self.ctx, o)
        if n is None:
            return NotImplemented
        if isinstance(o, SymInt):
            o = int(o)
            n = _num(self.ctx, o)
        if isinstance(o, SymReal):
            raise Limit("division by symbolic real")
        if o == 0:
            raise ZeroDivisionError("division by zero")
        return rounded(
            self.ctx, z3.ToReal(self.e) / toreal(n[0]), self.mag / abs(o)
        )

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o):
        return int(self) ** o

    def __rpow__(self, o):
        return o ** int(self)

    def __lshift__(self, o):
        return mkint(self.ctx, self.e * (1 << int(o)))

    def __rshift__(self, o):
        return mkint(self.ctx, floordiv(self.e, 1 << int(o)))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.ctx, floormod(self.e, o + 1))
        return int(self) & int(o)

    def __neg__(self):
        return mkint(self.ctx, -self.e, self.mag)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(self.ctx, z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mkint(self.ctx, -self.e - 1)

    # comparison
    def _cmp(self, o, f):
        n = _num(self.ctx, o)
        if n is None:
            if o == float("inf") if isinstance(o, float) else False:
                return f(0, 1)
            return NotImplemented
        oe, real = n
        return SymBool(self.ctx, f(toreal(self.e) if real else self.e, oe))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _known(self, o):
        """Both sides already fixed on this path?"""
        if self._c is None:
            return None
        if isinstance(o, SymInt):
            return o._c
        return o if isinstance(o, int) else None

    def __eq__(self, o):
        k = self._known(o)
        if k is not None:
            return self._c == k
        n = _num(self.ctx, o)
        if n is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        k = self._known(o)
        if k is not None:
            return self._c != k
        n = _num(self.ctx, o)
        if n is None:
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return self.ctx.fork(self.e != 0)

    def __int__(self):
        if self._c is None:
            self._c = self.ctx.concretize(self.e, "int")
        return self._c

    def __index__(self):
        return int(self)

    def __hash__(self):
        return hash(int(self))

    def __float__(self):
        return float(int(self))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True


def mkint(ctx, e, mag=INT_MAG):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(ctx, e, mag)


def floordiv(e, d):
    if d > 0:
        return e / z3.IntVal(d)
    return (-e) / z3.IntVal(-d)


def floormod(e, d):
    if d > 0:
        return e % z3.IntVal(d)
    return -((-e) % z3.IntVal(-d))


class SymReal(_Sym):
    """A float; arithmetic carries an explicit rounding-error term."""

    __slots__ = ("mag", "us", "iz", "idiv")

    def __init__(self, ctx, e, mag=INT_MAG):
        self.ctx = ctx
        self.e = e
        self.mag = mag
        self.us = None  # the float nearest to us/10**6, for an integer us
        # only with ctx.exact_ints:
        self.iz = None  # known to be this integer, which is not rounded
        self.idiv = None  # iz / integer constant

    def _iz(self, o):
        if not getattr(self.ctx, "exact_ints", False):
            return None
        if isinstance(o, SymReal):
            return o.iz
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, (int, float)) and o == int(o):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f, mag, rev=False, iop=True):
        n = _num(self.ctx, o)
        if n is None:
            return NotImplemented
        a, b = self.iz, self._iz(o)
        if iop and a is not None and b is not None and mag < 2**53:
            if rev:
                a, b = b, a
            r = SymReal(self.ctx, z3.ToReal(f(a, b)), mag)
            r.iz = f(a, b)
            return r
        b = toreal(n[0])
        a = self.e
        if rev:
            a, b = b, a
        return rounded(self.ctx, f(a, b), mag)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, self.mag + _mag(o))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, self.mag + _mag(o), True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, self.mag + _mag(o))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, self.mag + _mag(o), True)

    def __mul__(self, o):
        if isinstance(o, SymReal):
            raise Limit("real*real")
        if isinstance(o, SymInt):
            o = int(o)
        return self._bin(o, lambda a, b: a * b, self.mag * _mag(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymReal):
            raise Limit("real/real")
        if isinstance(o, SymInt):
            o = int(o)
        if isinstance(o, _Sym) or not isinstance(o, (int, float)):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        r = self._bin(
            o, lambda a, b: a / b, self.mag / abs(o), iop=False
        )
        if self.iz is not None and o == int(o) and self.mag < 2**50:
            # The rounding error is too small to get to the next integer, and
            # integers are not rounded.
            r.idiv = (self.iz, int(o))
        return r

    def __rtruediv__(self, o):
        raise Limit("x/real")

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if isinstance(o, _Sym) or not isinstance(o, (int, float)):
            raise Limit("real//sym")
        if o == 0:
            raise ZeroDivisionError("float floor division by zero")
        # floor of the exact quotient (CPython computes it from fmod)
        if self.iz is not None and o == int(o):
            q = floordiv(self.iz, int(o))
            r = SymReal(self.ctx, z3.ToReal(q), self.mag / abs(o) + 1)
            r.iz = q
            return r
        return SymReal(
            self.ctx,
            z3.ToReal(
                floor_real(self.ctx, self.e / _num(self.ctx, float(o))[0])
            ),
            self.mag / abs(o) + 1,
        )

    def __mod__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if isinstance(o, _Sym) or not isinstance(o, (int, float)):
            raise Limit("real%sym")
        if o == 0:
            raise ZeroDivisionError("float modulo")
        d = _num(self.ctx, float(o))[0]
        if self.iz is not None and o == int(o):
            r = SymReal(self.ctx, z3.ToReal(floormod(self.iz, int(o))), abs(o))
            r.iz = floormod(self.iz, int(o))
            return r
        q = z3.ToReal(floor_real(self.ctx, self.e / d))
        # fmod is exact
        return SymReal(self.ctx, self.e - q * d, abs(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        r = SymReal(self.ctx, -self.e, self.mag)
        if self.iz is not None:
            r.iz = -self.iz
        return r

    def __abs__(self):
        return SymReal(
            self.ctx, z3.If(self.e >= 0, self.e, -self.e), self.mag
        )

    def _cmp(self, o, f):
        n = _num(self.ctx, o)
        if n is None:
            return NotImplemented
        c = f(self.e, toreal(n[0]))
        if self.us is not None:
            # up to 2**52 rounding keeps the order of n/10**6
            if isinstance(o, SymReal):
                ous = o.us
            elif isinstance(o, (int, float)) and o == int(o):
                ous = z3.IntVal(int(o) * US)
            else:
                ous = None
            if ous is not None:
                lim = 4 * 10**15
                if self.ctx.known(
                    z3.And(*[z3.And(x < lim, x > -lim)
                             for x in (self.us, ous)])
                ):
                    c = f(self.us, ous)
        return SymBool(self.ctx, c)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if _num(self.ctx, o) is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if _num(self.ctx, o) is None:
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return self.ctx.fork(self.e != 0)

    def __hash__(self):
        raise Limit("hash of real")

    def to_int(self):
        """int(x): truncation."""
        if self.iz is not None:
            return mkint(self.ctx, self.iz, self.mag)
        if self.idiv is not None:
            a, o = self.idiv
            if self.ctx.fork(a >= 0 if o > 0 else a <= 0):
                return mkint(self.ctx, floordiv(a, o), self.mag)
            return mkint(self.ctx, -floordiv(-a, o), self.mag)
        if self.ctx.fork(self.e >= 0):
            return mkint(self.ctx, floor_real(self.ctx, self.e), self.mag)
        return mkint(self.ctx, -floor_real(self.ctx, -self.e), self.mag)

    def __trunc__(self):
        return self.to_int()

    def __floor__(self):
        if self.iz is not None:
            return mkint(self.ctx, self.iz, self.mag)
        if self.idiv is not None:
            return mkint(self.ctx, floordiv(*self.idiv), self.mag)
        return mkint(self.ctx, floor_real(self.ctx, self.e))

    def __ceil__(self):
        if self.iz is not None:
            return mkint(self.ctx, self.iz, self.mag)
        if self.idiv is not None:
            a, o = self.idiv
            return mkint(self.ctx, -floordiv(-a, o), self.mag)
        return mkint(self.ctx, -floor_real(self.ctx, -self.e))

    def __round__(self, n=None):
        """Nearest integer; which one at an exact tie is left open."""
        if n:
            return self
        if self.iz is not None:
            return mkint(self.ctx, self.iz, self.mag)
        e = z3.simplify(self.e)
        key = ("round", e.get_id())
        if key in self.ctx.memo:
            return SymInt(self.ctx, self.ctx.memo[key][0], self.mag)
        r = z3.Int(self.ctx.fresh("rnd"))
        self.ctx.memo[key] = (r, e)
        half = z3.RealVal("1/2")
        self.ctx.add(
            z3.And(
                z3.ToReal(r) - self.e <= half, self.e - z3.ToReal(r) <= half
            )
        )
        return SymInt(self.ctx, r, self.mag)

    def __int__(self):
        r = self.to_int()
        return int(r)

    def __float__(self):
        raise Limit("float() of a symbolic real")

    def is_integer(self):
        return SymBool(self.ctx, z3.IsInt(self.e))


def round_half_even(num, den):
    """Nearest integer to num/den (z3 int, positive int), ties to even."""
    q = num / z3.IntVal(den)
    r2 = 2 * (num % z3.IntVal(den))
    return z3.If(
        r2 < den, q, z3.If(r2 > den, q + 1, z3.If(q % 2 == 0, q, q + 1))
    )


def _real_us(ctx, x):
    """microseconds (z3 int) of x seconds, rounded half even as timedelta"""
    if isinstance(x, SymReal) and x.iz is not None:
        return x.iz * US
    r = SymReal(ctx, toreal(_num(ctx, x)[0]) * US)
    n = r.__round__()
    return zint(n)


def make_td(ctx, days=0, seconds=0, microseconds=0, milliseconds=0,
            minutes=0, hours=0, weeks=0):
    us = z3.IntVal(0)
    for v, f in (
        (days, 86400 * US),
        (seconds, US),
        (microseconds, 1),
        (milliseconds, 1000),
        (minutes, 60 * US),
        (hours, 3600 * US),
        (weeks, 7 * 86400 * US),
    ):
        if isinstance(v, SymReal):
            us = us + zint(SymReal(ctx, v.e * f).__round__())
        elif isinstance(v, (SymInt, SymBool)):
            us = us + zint(v) * f
        elif v:
            us = us + td_us(_dt.timedelta(microseconds=v * f))
    return SymTD(ctx, us)


class SymNaive(_Sym):
    """A naive point in time: good for log messages only."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __str__(self):
        return "<naive datetime>"

    def __format__(self, spec):
        return "<naive datetime>"

    __repr__ = __str__
    isoformat = strftime = lambda self, *a, **kw: str(self)


class SymTD(_Sym):
    def __init__(self, ctx, e):
        self.ctx = ctx
        self.e = z3.simplify(e) if isinstance(e, z3.ExprRef) else z3.IntVal(e)

    @staticmethod
    def _us(o):
        if isinstance(o, SymTD):
            return o.e
        if isinstance(o, _dt.timedelta):
            return z3.IntVal(td_us(o))
        return None

    def __add__(self, o):
        if isinstance(o, (SymDT, _dt.datetime)):
            if o.tzinfo is None:
                return SymNaive(self.ctx)
            return SymDT(self.ctx, z3ify(dt_us(o)) + self.e)
        u = self._us(o)
        if u is None:
            return NotImplemented
        return SymTD(self.ctx, self.e + u)

    __radd__ = __add__

    def __sub__(self, o):
        u = self._us(o)
        if u is None:
            return NotImplemented
        return SymTD(self.ctx, self.e - u)

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymDT(self.ctx, z3ify(dt_us(o)) - self.e)
        u = self._us(o)
        if u is None:
            return NotImplemented
        return SymTD(self.ctx, u - self.e)

    def __neg__(self):
        return SymTD(self.ctx, -self.e)

    def __abs__(self):
        return SymTD(self.ctx, z3.If(self.e >= 0, self.e, -self.e))

    def __mul__(self, o):
        if isinstance(o, int):
            return SymTD(self.ctx, self.e * o)
        if isinstance(o, SymInt):
            return SymTD(self.ctx, self.e * int(o))
        if isinstance(o, float):
            n, d = o.as_integer_ratio()
            return SymTD(self.ctx, round_half_even(self.e * n, d))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _dt.timedelta):
            return rounded(
                self.ctx,
                z3.ToReal(self.e) / z3.RealVal(td_us(o)),
                TIME_MAG * US / abs(td_us(o)),
            )
        if isinstance(o, SymInt):
            o = int(o)
        if isinstance(o, int):
            if o < 0:
                return (-self) / -o
            return SymTD(self.ctx, round_half_even(self.e, o))
        if isinstance(o, float):
            n, d = o.as_integer_ratio()
            if n < 0:
                n, d = -n, -d
            if d < 0:
                raise Limit("td/neg float")
            return SymTD(self.ctx, round_half_even(self.e * d, n))
        raise Limit("td/sym")

    def __floordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            return mkint(self.ctx, floordiv(self.e, td_us(o)))
        if isinstance(o, int):
            return SymTD(self.ctx, floordiv(self.e, o))
        raise Limit("td//sym")

    def __mod__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymTD(self.ctx, floormod(self.e, td_us(o)))
        raise Limit("td%sym")

    def __divmod__(self, o):
        return self // o, self % o

    def total_seconds(self):
        if getattr(self.ctx, "exact_ints", False):
            e = z3.simplify(self.e % US)
            if z3.is_int_value(e) and e.as_long() == 0:
                n = z3.simplify(self.e / US)
                r = SymReal(self.ctx, z3.ToReal(n), TIME_MAG)
                r.iz = n
                r.us = self.e
                return r
        r = rounded(
            self.ctx, z3.ToReal(self.e) / z3.RealVal(US), TIME_MAG
        )
        r.us = self.e
        return r

    @property
    def days(self):
        return mkint(self.ctx, floordiv(self.e, 86400 * US))

    @property
    def seconds(self):
        return mkint(
            self.ctx, floordiv(floormod(self.e, 86400 * US), US)
        )

    @property
    def microseconds(self):
        return mkint(self.ctx, floormod(self.e, US))

    def _cmp(self, o, f):
        u = self._us(o)
        if u is None:
            return NotImplemented
        return SymBool(self.ctx, f(self.e, u))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if self._us(o) is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if self._us(o) is None:
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return self.ctx.fork(self.e != 0)

    def __hash__(self):
        raise Limit("hash of timedelta")


def z3ify(x):
    return x if isinstance(x, z3.ExprRef) else z3.IntVal(x)


class SymDT(_Sym):
    """A timezone-aware (UTC) datetime, microseconds since year 1."""

    tzinfo = _dt.timezone.utc
    fold = 0

    def __init__(self, ctx, e):
        self.ctx = ctx
        self.e = z3.simplify(z3ify(e))

    def __add__(self, o):
        u = SymTD._us(o)
        if u is None:
            return NotImplemented
        return SymDT(self.ctx, self.e + u)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymDT, _dt.datetime)):
            return SymTD(self.ctx, self.e - z3ify(dt_us(o)))
        u = SymTD._us(o)
        if u is None:
            return NotImplemented
        return SymDT(self.ctx, self.e - u)

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymTD(self.ctx, z3ify(dt_us(o)) - self.e)
        return NotImplemented

    def _cmp(self, o, f):
        if isinstance(o, (SymDT, _dt.datetime)):
            return SymBool(self.ctx, f(self.e, z3ify(dt_us(o))))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isinstance(o, (SymDT, _dt.datetime)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not isinstance(o, (SymDT, _dt.datetime)):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        # equal datetimes must land in the same bucket; equality then forks
        return 7

    def astimezone(self, tz=None):
        return self

    def utcoffset(self):
        return _dt.timedelta(0)

    def replace(self, **kw):
        if set(kw) == {"tzinfo"}:
            return self
        raise Limit("datetime.replace")

    def isoformat(self, *a, **kw):
        reg = self.ctx.registry
        reg.append(self)
        return f"SYMDT:{len(reg) - 1}"

    def strftime(self, fmt):
        return "<SymDT>"

    def timestamp(self):
        return SymReal(
            self.ctx,
            z3.ToReal(self.e - dt_us(_dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)))
            / US,
        )




# --- strings ---------------------------------------------------------------

def zstr(x):
    if isinstance(x, SymStr):
        return x.e
    return z3.StringVal(x)


class SymStr(str):
    """A symbolic string.  As a `str` it has a unique placeholder content, so
    that it passes through formatting and files; containers see a constant
    hash, so all strings that may be compared must be SymStr (`ctx.lit`)."""

    _sym = True
    _symstr = True

    def __new__(cls, ctx, e):
        reg = ctx.registry
        reg.append(None)
        n = len(reg) - 1
        self = str.__new__(cls, f"\x02SYMSTR-{n}\x03")
        self.ctx = ctx
        self.e = z3.simplify(e)
        reg[n] = self
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def raw(self):
        return str.__str__(self)

    def __str__(self):
        return self

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, str):
            return False
        return bool(SymBool(self.ctx, self.e == zstr(o)))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 11

    def __bool__(self):
        return bool(SymBool(self.ctx, z3.Length(self.e) > 0))

    def _symlen(self):
        return SymInt(self.ctx, z3.Length(self.e))

    def __len__(self):
        return int(self._symlen())

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Limit("str.startswith")
        return bool(SymBool(self.ctx, z3.PrefixOf(zstr(p), self.e)))

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Limit("str.endswith")
        return bool(SymBool(self.ctx, z3.SuffixOf(zstr(p), self.e)))

    def __contains__(self, o):
        return bool(SymBool(self.ctx, z3.Contains(self.e, zstr(o))))

    def removeprefix(self, p):
        if not self.startswith(p):
            return self
        n = z3.Length(zstr(p))
        return SymStr(
            self.ctx, z3.SubString(self.e, n, z3.Length(self.e) - n)
        )

    def removesuffix(self, p):
        if not self.endswith(p):
            return self
        n = z3.Length(zstr(p))
        return SymStr(
            self.ctx, z3.SubString(self.e, 0, z3.Length(self.e) - n)
        )

    def replace(self, a, b, *r):
        if r:
            raise Limit("str.replace")
        if a not in self:
            return self
        za = zstr(a)
        i = z3.IndexOf(self.e, za, 0)
        n = z3.Length(za)
        head = SymStr(self.ctx, z3.SubString(self.e, 0, i))
        rest = SymStr(
            self.ctx,
            z3.SubString(self.e, i + n, z3.Length(self.e) - i - n),
        )
        return head + b + rest.replace(a, b)

    def __getitem__(self, i):
        n = z3.Length(self.e)
        if not isinstance(i, slice):
            if isinstance(i, int) and i >= 0:
                if not SymBool(self.ctx, n > i):
                    raise IndexError("string index out of range")
                return SymStr(self.ctx, z3.SubString(self.e, i, 1))
            raise Limit("str index")
        a, b = i.start, i.stop
        if i.step not in (None, 1) or (b is not None and b < 0):
            raise Limit("str slice")
        a = 0 if a is None else a
        if isinstance(a, int) and a < 0:
            raise Limit("str slice")
        ln = n - zint(a) if b is None else zint(b) - zint(a)
        return SymStr(self.ctx, z3.SubString(self.e, zint(a), ln))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(self.ctx, z3.Concat(self.e, zstr(o)))

    def __radd__(self, o):
        return SymStr(self.ctx, z3.Concat(zstr(o), self.e))

    def _sub(self, a, n):
        return SymStr(self.ctx, z3.SubString(self.e, a, n))

    # Whitespace is the blank only: `engine._text` maps all other characters
    # that are not printable ASCII to ideographs.
    def lstrip(self, chars=None):
        r = self
        chars = " " if chars is None else chars
        if isinstance(chars, SymStr):
            raise Limit("str.strip")
        while True:
            n = z3.Length(r.e)
            c = z3.Or(*[z3.PrefixOf(z3.StringVal(x), r.e) for x in chars])
            if not SymBool(self.ctx, c):
                return r
            r = r._sub(1, n - 1)

    def rstrip(self, chars=None):
        r = self
        chars = " " if chars is None else chars
        if isinstance(chars, SymStr):
            raise Limit("str.strip")
        while True:
            n = z3.Length(r.e)
            c = z3.Or(*[z3.SuffixOf(z3.StringVal(x), r.e) for x in chars])
            if not SymBool(self.ctx, c):
                return r
            r = r._sub(0, n - 1)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _case(self, lo, hi, d):
        n = len(self)
        r = []
        for i in range(n):
            c = z3.StrToCode(z3.SubString(self.e, i, 1))
            r.append(
                z3.If(
                    z3.And(c >= lo, c <= hi),
                    z3.StrFromCode(c + d),
                    z3.SubString(self.e, i, 1),
                )
            )
        if not r:
            return self
        return SymStr(self.ctx, r[0] if len(r) == 1 else z3.Concat(*r))

    def lower(self):
        return self._case(65, 90, 32)

    casefold = lower

    def upper(self):
        return self._case(97, 122, -32)

    def find(self, s, *a):
        if a:
            raise Limit("str.find")
        return int(SymInt(self.ctx, z3.IndexOf(self.e, zstr(s), 0)))

    def index(self, s, *a):
        i = self.find(s, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, s, *a):
        if a:
            raise Limit("str.count")
        return len(self.split(s)) - 1

    def partition(self, sep):
        if sep not in self:
            return (self, "", "")
        i = z3.IndexOf(self.e, zstr(sep), 0)
        k = z3.Length(zstr(sep))
        return (
            self._sub(0, i), sep, self._sub(i + k, z3.Length(self.e) - i - k)
        )

    def rpartition(self, sep):
        if sep not in self:
            return ("", "", self)
        parts = self.split(sep)
        head = parts[0]
        for x in parts[1:-1]:
            head = head + sep + x
        return (head, sep, parts[-1])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit >= 0:
                r = self.lstrip().split(" ", maxsplit)
                r = [x for x in r if x]
                if len(r) > 1 and maxsplit > 1:
                    raise Limit("str.split")
                if len(r) == 2:
                    r[1] = r[1].lstrip()
                return [x for x in r if x]
            return [x for x in self.split(" ") if x]
        r = []
        rest = self
        while maxsplit < 0 or len(r) < maxsplit:
            head, s, rest_ = rest.partition(sep)
            if not isinstance(s, SymStr) and s == "":
                break
            r.append(head)
            rest = rest_
        return r + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None or maxsplit != 1:
            raise Limit("str.rsplit")
        a, s, b = self.rpartition(sep)
        return [a, b] if isinstance(a, SymStr) else [b]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def isdigit(self):
        r = z3.InRe(self.e, z3.Plus(z3.Range("0", "9")))
        return bool(SymBool(self.ctx, r))

    isnumeric = isdecimal = isdigit

    def _limit(self, *a, **kw):
        raise Limit("str operation")

    def encode(self, *a, **kw):
        return SymEncoded(self)

    title = rindex = rfind = join = swapcase = _limit
    isalpha = isalnum = splitlines = translate = center = ljust = _limit


class SymEncoded(bytes):
    """An encoded symbolic string."""

    def __new__(cls, s):
        self = bytes.__new__(cls, s.raw().encode())
        self.s = s
        return self

    def decode(self, *a, **kw):
        return self.s

    def __eq__(self, o):
        if isinstance(o, SymEncoded):
            return self.s == o.s
        if isinstance(o, bytes):
            return self.s == o.decode("latin-1")
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 11

    def _limit(self, *a, **kw):
        raise Limit("bytes operation")

    __len__ = __iter__ = __getitem__ = __add__ = __radd__ = split = _limit
    startswith = endswith = removeprefix = replace = strip = _limit
    __contains__ = hex = find = partition = _limit


_PLACE = None


def unplace(ctx, s):
    """Turn text that contains placeholders back into a symbolic string."""
    import re

    global _PLACE
    if isinstance(s, SymStr):
        return s
    if _PLACE is None:
        _PLACE = re.compile("\x02SYMSTR-(\\d+)\x03")
    parts = _PLACE.split(s)
    if len(parts) == 1:
        return s
    e = None
    for i, p in enumerate(parts):
        if i % 2:
            x = ctx.registry[int(p)].e
        elif p:
            x = z3.StringVal(p)
        else:
            continue
        e = x if e is None else z3.Concat(e, x)
    return SymStr(ctx, e)
