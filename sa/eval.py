"""Interpretation of canonical terms over small finite structures.

This is the refutation half of the comparison: two summaries whose normal forms differ are reported only if an
admissible structure interprets them differently (random interpretation of value numbers).  Numbers are exact
rationals; square roots and trigonometric functions are rationals good to about 2^-190, and a quantity below 2^-110
counts as zero.
"""
from fractions import Fraction
from math import isqrt
import hashlib
from terms import *
import terms as TM

PREC = 200
TINY = Fraction(1, 1 << 110)
class NonFinite(Exception): pass
class Dead(Exception): pass
class NotFinite:
    """an infinity or a NaN as a value: it may stand in a result, but nothing is computed from it except sums, products,
    square roots and sines (which it makes non-finite too)"""
    def no(s, *a): raise NonFinite
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __abs__ = __int__ = __pow__ = __float__ = __bool__ = __floor__ = __ceil__ = __mod__ = no
    def __repr__(s): return 'inf or NaN'
    def __hash__(s): return 7
NF = NotFinite()
class Hang(Exception): pass
class Skip(Exception): pass
HUGEV = Fraction(1 << 128)

def rnd(x):
    """keep numbers short"""
    if x.denominator.bit_length() > 420:
        return Fraction((x.numerator << PREC + 40) // x.denominator, 1 << PREC + 40)
    return x
_sq = {}
def fsqrt(x):
    if x < 0:
        if x > -TINY: return Fraction(0)
        raise NonFinite
    r = _sq.get(x)
    if r is None:
        n, d = x.numerator, x.denominator
        a, b = isqrt(n), isqrt(d)
        if a * a == n and b * b == d: r = Fraction(a, b)
        else: r = Fraction(isqrt((n << (2 * PREC)) // d), 1 << PREC)
        if len(_sq) > 200000: _sq.clear()
        _sq[x] = r
    return r
import mpmath_lite as ML
def ev_trig(op, x): return getattr(ML, op)(x)

class Ev:
    def __init__(s, val, eps=Fraction(1, 4), funs=None, fuel=200000, poison=False, toss=False):
        s.toss = toss; s.tossed = False
        s.poison = poison    # let a non-finite number stand as a value instead of giving up
        s.val = val          # sym name -> value
        s.eps = eps; s.funs = funs or {}
        s.memo = {}; s.fuel = fuel
    def bool(s, t, env):
        r = s.ev(t, env)
        return r
    def sign(s, x):
        if -TINY < x < TINY: return 0
        return -1 if x < 0 else 1
    def ev(s, t, env):
        if t.free:
            key = (t, tuple(sorted(((v.id, hv(env[v])) for v in t.free if v in env))))
        else: key = t
        try:
            r = s.memo.get(key)
        except TypeError:
            key = None; r = None
        if r is not None:
            if isinstance(r, Exception): raise r
            return r[0]
        s.fuel -= 1
        if s.fuel < 0: raise Skip('fuel')
        try:
            r = s._ev(t, env)
        except (NonFinite, Dead) as e:
            if key is not None: s.memo[key] = e
            raise
        if key is not None: s.memo[key] = (r,)
        return r
    def poly(s, p, env):
        tot = Fraction(0)
        for m, c in p:
            x = c
            for v, e in m:
                y = s.ev(v, env)
                if y is NF: x = NF; continue
                if x is NF: continue
                if isinstance(y, bool): y = int(y)
                elif not isinstance(y, (Fraction, int)): raise Skip('not a number')
                x = x * (y if e == 1 else y ** e)
            if x is NF: tot = NF
            elif tot is not NF: tot += x
        return tot
    def bad(s):
        if s.poison: return NF
        raise NonFinite
    def atom(s, at_, env):
        k, q, c, _ = at_.a
        x = s.ev(q, env)
        if x is NF: s.tossed = True; return s.toss
        if k == 'b': return bool(x)
        if k == 'le': return x - c < TINY
        g = s.sign(x)
        return g == 0 if k == 'eq' else g < 0
    def _ev(s, t, env):
        op, a = t.op, t.a
        while op == 'ite':
            try: t = a[1] if s.atom(a[0], env) else a[2]
            except Dead:           # whichever way the undefined test goes
                if not isinstance(t, TM.T) or not bool_leaf(t): raise
                x, y = s.ev(a[1], env), s.ev(a[2], env)
                if x is not y: raise
                return x
            op, a = t.op, t.a
            if op != 'ite': return s.ev(t, env)
        E = lambda x: s.ev(x, env)
        if op == 'num':
            n = s.poly(a[0], env)
            if a[1] is not PONE and a[1] != PONE:
                d = s.poly(a[1], env)
                if s.sign(d) == 0: return s.bad()
                if n is NF: return n
                n = n / d
            return n if n is NF else rnd(n)
        if op == 'bool': return a[0]
        if op == 'struct': return Rec(a[0], a[1], [E(x) for x in a[2]])
        if op == 'enum': return Var(a[1], a[2], [E(x) for x in a[3]])
        if op == 'sym':
            if a[0] not in s.val: raise Skip('symbol ' + a[0])
            return s.val[a[0]]
        if op in ('bv', 'fresh'): return env[t]
        if op == 'proj':
            v = E(a[0])
            if not isinstance(v, Rec): raise Skip('proj of %r' % (v,))
            return v.get(a[1])
        if op == 'isv': 
            v = E(a[0])
            return v.tag == a[1]
        if op == 'pay':
            v = E(a[0])
            if v.tag != a[1]: raise Dead
            return v.get(a[2])
        if op == 'at':
            v = E(a[0]); i = E(a[1])
            i = int(i)
            if not 0 <= i < len(v): raise Dead
            return v[i]
        if op == 'len': return Fraction(len(E(a[0])))
        if op == 'lit': return tuple(E(x) for x in a[0])
        if op == 'cat':
            r = ()
            for x in a[0]: r += E(x)
            return r
        if op == 'upd':
            v = E(a[0]); i = int(E(a[1]))
            if not 0 <= i < len(v): raise Dead
            return v[:i] + (E(a[2]),) + v[i + 1:]
        if op == 'sqrt':
            x = E(a[0])
            return s.bad() if x is NF or x <= -TINY else fsqrt(x)
        if op in ('sin', 'cos', 'acos', 'tan', 'asin', 'atan', 'exp', 'ln'):
            x = E(a[0])
            if x is NF and op in ('sin', 'cos', 'tan', 'acos', 'asin'): return x
            if x is NF: raise NonFinite
            if op in ('acos', 'asin') and abs(x) > 1:
                if abs(x) > 1 + TINY: return s.bad()
                x = Fraction(1 if x > 0 else -1)
            return ev_trig(op, x)
        if op == 'eps': return s.eps
        if op == 'huge': return HUGEV
        if op == 'str': return a[0]
        if op in ('fm', 'sum', 'prod', 'exists', 'first', 'last', 'min'):
            n = E(a[0])
            bv = [x for x in TM.bvs(a[1], [a[2]])][0]
            def body(i):
                e2 = dict(env); e2[bv] = Fraction(i); return s.ev(a[3], e2)
            n = int(n)
            if n > 100000: raise Skip('range')
            if op == 'fm':
                r = []
                for i in range(n): r.extend(body(i))
                return tuple(r)
            if op == 'sum':
                r = Fraction(0)
                for i in range(n):
                    x = body(i)
                    r = NF if x is NF or r is NF else r + x
                return r
            if op == 'prod':
                r = Fraction(1)
                for i in range(n): r *= body(i)
                return r
            if op == 'exists': return any(body(i) for i in range(n))
            if op == 'first':
                for i in range(n):
                    if body(i): return Fraction(i)
                raise Dead
            if op == 'last':
                for i in range(n - 1, -1, -1):
                    if body(i): return Fraction(i)
                raise Dead
            if op == 'min':
                if n <= 0: raise Dead
                return min(body(i) for i in range(n))
        if op == 'rec':
            ins, h, sorts, nx, cont = a
            bv = TM.bvs(h, sorts)
            flag = sticky(t, bv)        # `has it happened yet`: decided before a later state that does not exist is needed
            st = [E(x) for x in ins]
            for it in range(3000):
                e2 = dict(env)
                for b, v in zip(bv, st): e2[b] = v
                if flag and st[0] is True: return True
                if not s.ev(cont, e2): return st[0]
                if flag and s.ev(nx[0], e2) is True: return True
                new = [s.ev(x, e2) for x in nx]
                if new == st: raise Hang
                st = new
            raise Hang
        if op == 'app': return s.app(a[0], a[1:], env)
        if t is DEAD: raise Dead
        raise Skip('term ' + op)
    def app(s, nm, xs, env):
        if nm in s.funs: return s.funs[nm](s, *[s.ev(x, env) for x in xs])
        v = [s.ev(x, env) for x in xs]
        if NF in v: raise NonFinite
        if nm == 'irem':
            if v[1] == 0: raise Dead
            return Fraction(int(v[0]) % int(v[1]))
        if nm == 'idiv':
            if v[1] == 0: raise Dead
            return Fraction(int(v[0]) // int(v[1]))
        if nm == 'div0': return s.bad()
        if nm == 'zsign': return True
        if nm == 'pow':
            e = v[1]
            if e.denominator != 1 or abs(e) > 200: raise Skip('pow')
            if v[0] == 0 and e < 0: raise NonFinite
            return rnd(Fraction(v[0]) ** int(e))
        if nm == 'wrap': return Fraction((int(v[0]) - int(v[1])) % (int(v[2]) - int(v[1]) + 1) + int(v[1]))
        if nm == 'trunc': return Fraction(int(v[0]))
        if nm == 'floor': return Fraction(v[0].__floor__())
        if nm == 'ceil': return Fraction(v[0].__ceil__())
        if nm == 'fract': return v[0] - int(v[0])
        if nm == 'round': return Fraction(int(v[0] + Fraction(1, 2) * (1 if v[0] >= 0 else -1)))
        if nm == 'frem':
            if s.sign(v[1]) == 0: raise NonFinite
            return v[0] - v[1] * int(v[0] / v[1])
        if nm in ('intBitAnd', 'intBitOr', 'intBitXor'):
            a, b = int(v[0]), int(v[1])
            return Fraction(a & b if nm == 'intBitAnd' else a | b if nm == 'intBitOr' else a ^ b)
        if nm.startswith('int') or nm in ('bitnot', 'atan2'): raise Skip('operation ' + nm)
        if nm in ('abs_diff_eq', 'relative_eq', 'ulps_eq'):
            a, b = v[0], v[1]
            if a == b or abs(a - b) <= v[2]: return True
            if nm == 'abs_diff_eq': return False
            if nm == 'relative_eq': return abs(a - b) <= max(abs(a), abs(b)) * v[3]
            if (a < 0) != (b < 0): return False
            # how many representable numbers lie between is left open: any symmetric predicate of the magnitudes
            a, b = sorted((abs(a), abs(b)))
            return hsh((nm, a, b) + tuple(v[3:])) & 1 == 1
        return Fraction(hsh((nm,) + tuple(v)) % 1009, 7)
def hsh(x): return int.from_bytes(hashlib.md5(repr(x).encode()).digest()[:4], 'big')
def hv(x): return x

def bool_leaf(t):
    while t.op == 'ite': t = t.a[1]
    return t.op == 'bool'
_sticky = {}
def sticky(t, bv):
    """is the first component a boolean that stays true once it is?"""
    if t not in _sticky:
        r = t.a[0][0].op == 'bool' and TM.subst(t.a[3][0], {bv[0]: TM.TRUE}) is TM.TRUE
        _sticky[t] = r
    return _sticky[t]
class Rec:
    __slots__ = ('path', 'names', 'vals', '_h')
    def __init__(s, path, names, vals): s.path = path; s.names = tuple(names); s.vals = tuple(vals); s._h = None
    def get(s, f):
        try: return s.vals[s.names.index(f)]
        except ValueError: raise Skip('field ' + f)
    def __eq__(s, o): return isinstance(o, Rec) and s.names == o.names and s.vals == o.vals
    def __hash__(s):
        if s._h is None: s._h = hash((s.names, s.vals))
        return s._h
    def __repr__(s): return '%s{%s}' % ('' if s.path == '()' else s.path.split('::')[-1], ', '.join('%s: %s' % (n, rp(v)) if s.path != '()' else rp(v) for n, v in zip(s.names, s.vals)))
class Var:
    __slots__ = ('tag', 'names', 'vals')
    def __init__(s, tag, names=(), vals=()): s.tag = tag; s.names = tuple(names); s.vals = tuple(vals)
    def get(s, f): return s.vals[s.names.index(f)]
    def __eq__(s, o): return isinstance(o, Var) and s.tag == o.tag and s.vals == o.vals
    def __hash__(s): return hash((s.tag, s.vals))
    def __repr__(s): return s.tag + ('(%s)' % ', '.join(rp(v) for v in s.vals) if s.vals else '')
def rp(v):
    if isinstance(v, Fraction):
        if v.denominator < 10 ** 4 and abs(v.numerator) < 10 ** 7: return str(v)
        return '%.6g' % float(v)
    if isinstance(v, tuple): return '[' + ', '.join(rp(x) for x in v) + ']'
    return repr(v)
def same(a, b):
    """equality of values up to the evaluation precision"""
    if isinstance(a, bool) or isinstance(b, bool): return a == b
    if isinstance(a, (Fraction, int)) and isinstance(b, (Fraction, int)): return abs(a - b) < TINY * (1 + abs(a)) * 1000
    if isinstance(a, Rec) and isinstance(b, Rec): return a.names == b.names and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, Var) and isinstance(b, Var): return a.tag == b.tag and len(a.vals) == len(b.vals) and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
def diffpath(a, b, p=''):
    """innermost component where two values differ"""
    if isinstance(a, Rec) and isinstance(b, Rec) and a.names == b.names:
        for n, x, y in zip(a.names, a.vals, b.vals):
            if not same(x, y): return diffpath(x, y, p + '.' + n)
    if isinstance(a, Var) and isinstance(b, Var) and a.tag == b.tag and len(a.vals) == len(b.vals):
        for n, x, y in zip(a.names, a.vals, b.vals):
            if not same(x, y): return diffpath(x, y, p + '.' + a.tag)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y): return diffpath(x, y, p + '[%d]' % i)
    return p, a, b
