"""Rational approximations of elementary functions (about 190 bits)."""
from fractions import Fraction
P = 220
ONE = 1 << P
def _fx(x): return (x.numerator << P) // x.denominator
def _fr(n): return Fraction(n, ONE)
def _atan_inv(n):
    t = ONE // n; s = t; k = 3; n2 = n * n; sg = -1
    while t:
        t //= n2; s += sg * (t // k); k += 2; sg = -sg
    return s
PI_I = 4 * (4 * _atan_inv(5) - _atan_inv(239))
PI = _fr(PI_I)
def _sincos(x):
    x = _fx(x) % (2 * PI_I)
    h = x >> 8
    # taylor at h, then double
    c = ONE; s = h; tc = ONE; ts = h; k = 1
    h2 = (h * h) >> P
    c = 0; s = 0; tc = ONE; ts = h; k = 0
    while tc or ts:
        c += tc; s += ts
        tc = -((tc * h2) >> P) // ((2 * k + 1) * (2 * k + 2)); ts = -((ts * h2) >> P) // ((2 * k + 2) * (2 * k + 3)); k += 1
        if abs(tc) <= 1: tc = 0
        if abs(ts) <= 1: ts = 0
    for _ in range(8):
        s, c = (2 * s * c) >> P, ((c * c) >> P) - ((s * s) >> P)
    return s, c
def sin(x): return _fr(_sincos(Fraction(x))[0])
def cos(x): return _fr(_sincos(Fraction(x))[1])
def tan(x): 
    s, c = _sincos(Fraction(x)); return Fraction(s, c)
def atan(x):
    # newton on tan via sin/cos
    import math
    y = Fraction(math.atan(float(x)))
    for _ in range(5):
        s, c = _sincos(y)
        # f = s - x c ; f' = c + x s
        f = Fraction(s, ONE) - x * Fraction(c, ONE); d = Fraction(c, ONE) + x * Fraction(s, ONE)
        y = Fraction(_fx(y - f / d), ONE)
    return y
def acos(x):
    import math
    from eval import NonFinite, fsqrt
    if abs(x) > 1:
        if abs(x) - 1 < Fraction(1, 1 << 100): x = Fraction(1 if x > 0 else -1)
        else: raise NonFinite
    if x == 1: return Fraction(0)
    if x == -1: return PI
    if abs(x) > Fraction(99, 100):
        s = fsqrt(1 - x * x)
        a = asin(s)
        return a if x > 0 else PI - a
    y = Fraction(math.acos(float(x)))
    for _ in range(5):
        s, c = _sincos(y)
        y = Fraction(_fx(y + (Fraction(c, ONE) - x) / Fraction(s, ONE)), ONE)
    return y
def asin(x):
    import math
    from eval import NonFinite
    if abs(x) > 1: raise NonFinite
    if abs(x) > Fraction(99, 100): return PI / 2 - acos(x)
    y = Fraction(math.asin(float(x)))
    for _ in range(5):
        s, c = _sincos(y)
        y = Fraction(_fx(y - (Fraction(s, ONE) - x) / Fraction(c, ONE)), ONE)
    return y
def exp(x):
    import math
    return Fraction(math.exp(float(x)))
def ln(x):
    import math
    from eval import NonFinite
    if x <= 0: raise NonFinite
    return Fraction(math.log(float(x)))
