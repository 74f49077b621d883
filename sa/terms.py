"""Hash-consed symbolic terms with canonical forms.

Every value the dataflow analysis derives from the MIR is one of these terms:
  numbers     rational functions over opaque numeric terms (`num`), exact rational coefficients
  conditions  ordered binary decision diagrams (`ite`) over sign / threshold / opaque atoms; the terminals may be
              any term, so a value that depends on control flow is a multi-terminal diagram
  data        struct / enum / tuple aggregates, sequences (`lit`, `fm` = indexed flat-map, `cat`, `upd`)
  loops       `sum`, `prod`, `exists`, `first`, `last` over an index range, or a recurrence (`rec`)
Terms with binders are kept nameless (binder height), so alpha-equivalent terms are identical objects and
equality of canonical forms is pointer equality.
"""
import sys
from fractions import Fraction
from math import gcd, isqrt
sys.setrecursionlimit(100000)

EMPTY = frozenset()
class T:
    __slots__ = ('op', 'a', 'id', 'h', 'free', 'unk', 'cd', '__weakref__')
    def __repr__(s): return "T%d" % s.id
    def __hash__(s): return s.id
    def __eq__(s, o): return s is o
    def __lt__(s, o): return s.id < o.id

_tab = {}
_cnt = 0
def mk(op, *a, h=None, free=None):
    global _cnt
    k = (op,) + a
    t = _tab.get(k)
    if t is not None: return t
    t = T(); t.op = op; t.a = a; _cnt += 1; t.id = _cnt
    hh = 0; ff = EMPTY; uu = op == 'unk'
    for x in _kids(op, a):
        if x.h > hh: hh = x.h
        if x.free: ff = (ff | x.free) if ff else x.free
        if x.unk: uu = True
    t.h = hh if h is None else h
    t.free = ff if free is None else free
    t.unk = uu
    if op == 'ite': t.cd = a[1].cd or a[2].cd
    elif op == 'struct' or op == 'enum' or op == 'lit' or op == 'cat' or op == 'map' or op == 'iter': t.cd = any(x.op == 'ite' or x.cd for x in _kids(op, a))
    else: t.cd = False
    _tab[k] = t
    return t

def _kids(op, a):
    if op == 'num':
        for poly in a:
            for mono, c in poly:
                for v, e in mono: yield v
    else:
        for x in a:
            if isinstance(x, T): yield x
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T): yield y

# ------------------------------------------------------------------ polynomials: tuple of (mono, coef); mono tuple of (T, exp)
def pkey(m): return (-sum(e for _, e in m), tuple((v.id, -e) for v, e in m))
def pmake(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: pkey(mc[0])))
PZERO = ()
PONE = (((), Fraction(1)),)
def pconst(c): return () if c == 0 else (((), Fraction(c)),)
def pvar(t): return ((((t, 1),), Fraction(1)),)
def padd(p, q, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return pmake(d)
def pscale(p, k): return tuple((m, c * k) for m, c in p) if k != 0 else ()
def mmul(m, n):
    d = dict(m)
    for v, e in n: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items(), key=lambda ve: ve[0].id))
def _reduce_mono(m):
    """Returns None if already reduced, else a polynomial equal to the monomial."""
    for i, (v, e) in enumerate(m):
        if e >= 2 and v.op == 'sqrt' and is_poly(v.a[0]):
            rad = v.a[0]
            rest = m[:i] + (((v, e % 2),) if e % 2 else ()) + m[i + 1:]
            p = ((rest, Fraction(1)),)
            q = rpoly(rad)
            for _ in range(e // 2): p = pmul(p, q)
            return p
        if e >= 2 and v.op == 'sin':
            rest = m[:i] + (((v, e - 2),) if e - 2 else ()) + m[i + 1:]
            c = base_var(mk('cos', v.a[0]))
            q = padd(PONE, pmul(pvar(c), pvar(c)), -1)
            return pmul(((rest, Fraction(1)),), q)
    return None
def base_var(t): return t
_pm = {}
def pmul(p, q):
    if not p or not q: return ()
    if p is PONE: return q
    if q is PONE: return p
    k = (p, q)
    r = _pm.get(k)
    if r is not None: return r
    d = {}
    for m, c in p:
        for n, e in q:
            mn = mmul(m, n)
            red = _reduce_mono(mn)
            if red is None: d[mn] = d.get(mn, 0) + c * e
            else:
                for m2, c2 in red: d[m2] = d.get(m2, 0) + c * e * c2
    r = pmake(d)
    _pm[k] = r
    return r
def pisconst(p): return not p or (len(p) == 1 and p[0][0] == ())
def pcval(p): return Fraction(0) if not p else p[0][1]
def pcontent(p):
    g = 0; l = 1
    for _, c in p:
        g = gcd(g, c.numerator); l = l * c.denominator // gcd(l, c.denominator)
    return Fraction(g, l) if g else Fraction(1)
def mdiv(m, n):
    d = dict(m)
    for v, e in n:
        if d.get(v, 0) < e: return None
        d[v] -= e
        if d[v] == 0: del d[v]
    return tuple(sorted(d.items(), key=lambda ve: ve[0].id))
def pdivexact(p, q):
    """p / q when q divides p in the free polynomial ring (lex order on ids), else None."""
    if not p: return ()
    if pisconst(q): return pscale(p, 1 / pcval(q))
    lk = lambda m: tuple(sorted(((v.id, e) for v, e in m)))
    # use lexicographic order with a fixed variable order
    vs = sorted({v for m, _ in p + q for v, _ in m})
    idx = {v: i for i, v in enumerate(vs)}
    def vec(m):
        r = [0] * len(vs)
        for v, e in m: r[idx[v]] = e
        return tuple(r)
    dp = {vec(m): c for m, c in p}
    lq = [(vec(m), c) for m, c in q]
    lm, lc = max(lq)
    out = {}
    steps = 0
    while dp:
        m = max(dp); c = dp[m]
        if any(a < b for a, b in zip(m, lm)): return None
        f = tuple(a - b for a, b in zip(m, lm)); k = c / lc
        out[f] = k
        for n, e in lq:
            t = tuple(a + b for a, b in zip(n, f))
            v = dp.get(t, 0) - k * e
            if v == 0: dp.pop(t, None)
            else: dp[t] = v
        steps += 1
        if steps > 400: return None
    return pmake({tuple((vs[i], e) for i, e in enumerate(f) if e): c for f, c in out.items()})

# ------------------------------------------------------------------ numbers
_rat = {}
def rat(n, d=PONE):
    """Canonical number term n/d."""
    if not n: return mk('num', (), PONE)
    key = (n, d)
    r = _rat.get(key)
    if r is not None: return r
    n0, d0 = n, d
    if not d: 
        r = mk('app', 'div0', mk('num', n, PONE)); _rat[key] = r; return r
    for _ in range(12):
        if pisconst(d): break
        # common monomial factor
        com = None
        for m, _c in d:
            com = dict(m) if com is None else {v: min(e, dict(m)[v]) for v, e in com.items() if v in dict(m)}
            if not com: break
        if com:
            sq = [v for v in com if v.op == 'sqrt' and is_poly(v.a[0])]
            comn = dict(com)
            for m, _c in n:
                dm = dict(m)
                comn = {v: min(e, dm[v]) for v, e in comn.items() if v in dm}
                if not comn: break
            if comn:
                f = tuple(sorted(comn.items(), key=lambda ve: ve[0].id))
                n = pmake({mdiv(m, f): c for m, c in n}); d = pmake({mdiv(m, f): c for m, c in d})
                continue
            if sq:
                v = sq[0]
                n = pmul(n, pvar(v)); d = pmul(d, pvar(v))
                continue
        q = pdivexact(n, d)
        if q is not None: n, d = q, PONE; break
        if not pisconst(n):
            q = pdivexact(d, n)
            if q is not None: n, d = PONE, q; continue
        break
    if pisconst(d):
        n = pscale(n, 1 / pcval(d)); d = PONE
    else:
        k = pcontent(d)
        if d[0][1] < 0: k = -k
        n = pscale(n, 1 / k); d = pscale(d, 1 / k)
    if d == PONE and len(n) == 1 and n[0][1] == 1 and len(n[0][0]) == 1 and n[0][0][0][1] == 1:
        r = n[0][0][0][0]
    else:
        r = mk('num', n, d)
    _rat[key] = r
    return r
_num = {}
def num(c):
    r = _num.get(c)
    if r is None: r = _num[c] = rat(pconst(Fraction(c)))
    return r
ZERO = num(0); ONE = num(1)
TRUE = mk('bool', True); FALSE = mk('bool', False)
UNIT = mk('struct', '()', (), ())
def boolc(b): return TRUE if b else FALSE
def unk(why): return mk('unk', why)
def rparts(t):
    """(num poly, den poly) of a numeric term that is not an ite."""
    if t.op == 'num': return t.a[0], t.a[1]
    return pvar(t), PONE
def is_poly(t):
    return t.op != 'ite' and t.op != 'unk' and _is_poly(t)
def _is_poly(t): return t.op != 'num' or t.a[1] == PONE
def rpoly(t): return rparts(t)[0]
def is_const(t): return t.op == 'num' and t.a[1] == PONE and pisconst(t.a[0])
def cval(t): return pcval(t.a[0])

# ------------------------------------------------------------------ lifting over decision diagrams
_lift = {}
def lift(name, f, *args):
    """Apply f (defined on non-ite arguments) through the diagrams in args."""
    k = (name,) + args
    r = _lift.get(k)
    if r is not None: return r
    top = None
    for x in args:
        if x.op == 'ite' and (top is None or akey(x.a[0]) < akey(top)): top = x.a[0]
    if top is None: r = f(*args)
    else:
        hi = [x.a[1] if x.op == 'ite' and x.a[0] is top else x for x in args]
        lo = [x.a[2] if x.op == 'ite' and x.a[0] is top else x for x in args]
        r = ite_atom(top, lift(name, f, *hi), lift(name, f, *lo))
    _lift[k] = r
    return r

def _add(a, b):
    (n1, d1), (n2, d2) = rparts(a), rparts(b)
    if d1 == d2: return rat(padd(n1, n2), d1)
    return rat(padd(pmul(n1, d2), pmul(n2, d1)), pmul(d1, d2))
def _mul(a, b):
    (n1, d1), (n2, d2) = rparts(a), rparts(b)
    return rat(pmul(n1, n2), pmul(d1, d2))
def _div(a, b):
    (n1, d1), (n2, d2) = rparts(a), rparts(b)
    if not n2: return mk('app', 'div0', a)
    return rat(pmul(n1, d2), pmul(d1, n2))
def add(a, b): return lift('add', _add, a, b)
def neg(a): return mul(num(-1), a)
def sub(a, b): return add(a, neg(b))
def mul(a, b): return lift('mul', _mul, a, b)
def div(a, b): return lift('div', _div, a, b)
def addn(*xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r

# non-negative opaque terms (lengths, unsigned integers, square roots, ...)
NAT = set()
LENREP = {}        # list-valued terms -> another one that always has the same length
POSINT = set()    # integer terms known to be at least 1
def nat(t):
    if t.op == 'num' or t.op == 'ite' or t.op == 'unk': return t
    NAT.add(t); return t
def nonneg_var(v): return v in NAT or v.op in ('sqrt', 'len', 'first', 'last', 'abs', 'eps', 'posc') or (v.op in ('bv', 'fresh') and v.a[-1] == 'nat') or (v.op == 'app' and v.a[0] in ('idiv', 'irem', 'factorial'))
def pos_var(v): return v.op in ('eps', 'posc')
def mono_nonneg(m): return all(e % 2 == 0 or nonneg_var(v) for v, e in m)
def p_nonneg(p): return all(c > 0 and mono_nonneg(m) for m, c in p)
def p_pos(p): return p_nonneg(p) and any(m == () or all(pos_var(v) for v, e in m) for m, c in p)

def _sqrt(a):
    n, d = rparts(a)
    if d != PONE:
        if p_nonneg(d): return div(sqrt(rat(pmul(n, d))), rat(d))
        return mk('sqrt', a)
    if pisconst(n):
        c = pcval(n)
        if c >= 0:
            x, y = isqrt(c.numerator), isqrt(c.denominator)
            if x * x == c.numerator and y * y == c.denominator: return num(Fraction(x, y))
        return mk('sqrt', a)
    k = pcontent(n)
    x, y = isqrt(k.numerator), isqrt(k.denominator)
    f = Fraction(1)
    if x * x == k.numerator and y * y == k.denominator:
        f = Fraction(x, y); n = pscale(n, 1 / k)
    if len(n) == 1 and n[0][1] == 1 and all(e % 2 == 0 for _, e in n[0][0]):
        return mul(num(f), absv(rat(((tuple((v, e // 2) for v, e in n[0][0]), Fraction(1)),))))
    return mul(num(f), mk('sqrt', rat(n)))
def sqrt(a): return lift('sqrt', _sqrt, a)
def _absv(a):
    n = lt(a, ZERO)
    if n is FALSE: return a
    return ite(eq(a, ZERO), ZERO, ite(n, neg(a), a))      # symmetric: |x| and |-x| share one form
def absv(a): return lift('abs', _absv, a)
def fmin(a, b): return ite(lt(b, a), b, a)
def fmax(a, b): return ite(lt(a, b), b, a)
def imin(a, b): return ite(ilt(b, a), b, a)
def imax(a, b): return ite(ilt(a, b), b, a)
def app1(name, a): return lift('f' + name, lambda x: _trig(name, x), a)
def _trig(name, x):
    if name in ('sin', 'cos') and x is ZERO: return ZERO if name == 'sin' else ONE
    if name in ('sin', 'cos') and is_poly(x):
        p = rpoly(x)
        if p[0][1] < 0:
            r = mk(name, rat(pscale(p, -1)))
            return neg(r) if name == 'sin' else r
    if name == 'acos' and is_const(x) and cval(x) == 1: return ZERO
    return mk(name, x)

# ------------------------------------------------------------------ atoms and diagrams
def akey(at): return at.a[-1]
_akc = {'eq': 0, 'lt': 1, 'le': 2, 'b': 3}
def atom(kind, t, c=0):
    return mk('atom', kind, t, c, (t.id, _akc[kind], c))
def mknode(at, hi, lo):
    if hi is lo: return hi
    if hi.cd: hi = restrict(hi, at, True)
    if lo.cd: lo = restrict(lo, at, False)
    if hi is lo: return hi
    kind, t, c, key = at.a
    if kind == 'le':   # implied thresholds on the same quantity
        while hi.op == 'ite' and hi.a[0].a[0] == 'le' and hi.a[0].a[1] is t: hi = hi.a[1]
        if hi is lo: return hi
        if lo.op == 'ite' and lo.a[0].a[0] == 'le' and lo.a[0].a[1] is t and lo.a[1] is hi: return lo   # the weaker threshold decides alone
    elif kind == 'eq':
        if hi.op == 'ite' and hi.a[0].a[0] == 'lt' and hi.a[0].a[1] is t: hi = hi.a[2]
        if hi is lo: return hi
        if hi is t and hi is not ZERO or hi.op == 'num' and hi is not ZERO and multiple(hi, t): return mknode(at, ZERO, lo)
    return mk('ite', at, hi, lo)
def multiple(x, t):
    """x is a constant multiple of the quantity t"""
    n, d = rparts(x)
    if len(d) != 1 or d[0][0] != (): return False
    q = rpoly(t)
    return len(q) == len(n) and n == pscale(q, n[0][1] / q[0][1])
def ite_atom(at, hi, lo):
    """ite(at, hi, lo) where hi/lo may contain smaller atoms: full re-ordering."""
    kh = akey(hi.a[0]) if hi.op == 'ite' else None
    kl = akey(lo.a[0]) if lo.op == 'ite' else None
    k = akey(at)
    if (kh is None or kh > k) and (kl is None or kl > k): return mknode(at, hi, lo)
    return ite(mknode(at, TRUE, FALSE), hi, lo)
_ite = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'unk': return unk('cond')
    if c.op != 'ite': c = as_bool(c)
    if c.op != 'ite': return ite(c, a, b)
    if a is TRUE and b is FALSE: return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None: return r
    if a.op in ('struct', 'enum') and b.op == a.op and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        r = mk_same(a, [ite(c, x, y) for x, y in zip(a.a[-1], b.a[-1])])
    elif a.op == 'lit' and b.op == 'lit' and len(a.a[0]) == len(b.a[0]): r = lit([ite(c, x, y) for x, y in zip(a.a[0], b.a[0])])
    elif a.op in ('map', 'iter') and b.op == a.op: r = mk(a.op, *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    elif a.op == 'closure' and b.op == a.op and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]): r = mk('closure', a.a[0], tuple(ite(c, x, y) for x, y in zip(a.a[1], b.a[1])))
    else:
        # eta-expand an opaque struct against a literal one
        if a.op == 'struct' and b.op in OPAQUE: b2 = eta_like(b, a)
        else: b2 = b
        if b.op == 'struct' and a.op in OPAQUE: a2 = eta_like(a, b)
        else: a2 = a
        if a2 is not a or b2 is not b: r = ite(c, a2, b2)
        else:
            top = c.a[0]
            for x in (a, b):
                if x.op == 'ite' and akey(x.a[0]) < akey(top): top = x.a[0]
            c1, c0 = cof(c, top); a1, a0 = cof(a, top); b1, b0 = cof(b, top)
            r = mknode(top, ite(c1, a1, b1), ite(c0, a0, b0))
            if r.op == 'ite' and r.a[1].op == r.a[2].op and (r.a[1].op in ('struct', 'enum') and r.a[1].a[:2] == r.a[2].a[:2] or r.a[1].op == 'lit' and len(r.a[1].a[0]) == len(r.a[2].a[0])):
                r = ite(mknode(r.a[0], TRUE, FALSE), r.a[1], r.a[2])
    _ite[k] = r
    return r
OPAQUE = ('sym', 'proj', 'at', 'pay', 'bv', 'fresh', 'rec', 'app', 'col')
def mk_same(a, fs):
    if a.op == 'struct': return struct(a.a[0], a.a[1], fs)
    return mk('enum', a.a[0], a.a[1], a.a[2], tuple(fs))
def eta_like(t, s): return struct_raw(s.a[0], s.a[1], [proj(t, f) for f in s.a[1]])
def cof(x, at):
    """(high, low) cofactors of diagram x with respect to an atom that precedes or equals its top."""
    if x.op != 'ite': return x, x
    t = x.a[0]
    if t is at: return x.a[1], x.a[2]
    k1, k2 = at.a, t.a
    if k1[1] is k2[1]:
        if k1[0] == 'le' and k2[0] == 'le' and k2[2] > k1[2]:
            # at true implies t true
            h = x
            while h.op == 'ite' and h.a[0].a[0] == 'le' and h.a[0].a[1] is k1[1]: h = h.a[1]
            return h, x
        if k1[0] == 'eq' and k2[0] == 'lt': return x.a[2], x
    return x, x
def as_bool(t):
    if t.op in ('ite', 'bool', 'unk'): return t
    if t.op in ('num',): return unk('num as bool')
    return mk('ite', atom('b', t), TRUE, FALSE)
def b_not(a): return ite(as_bool(a), FALSE, TRUE)
def b_and(*xs):
    r = TRUE
    for x in xs: r = ite(as_bool(x), r, FALSE) if r is not TRUE else as_bool(x)
    return r
def b_or(*xs):
    r = FALSE
    for x in xs: r = ite(as_bool(x), TRUE, r)
    return r
def b_xor(a, b): return ite(as_bool(a), b_not(b), as_bool(b))
def b_iff(a, b): return ite(as_bool(a), as_bool(b), b_not(b))

# ---- comparisons
def _sign_norm(p):
    """(sign, primitive polynomial with positive leading coefficient)"""
    k = pcontent(p)
    s = 1
    if p[0][1] < 0: k = -k; s = -1
    return s, pscale(p, 1 / k)
def real_eq0(p):
    if pisconst(p): return boolc(pcval(p) == 0)
    s, q = _sign_norm(p)
    if len(q) == 1:
        r = FALSE
        for v, e in q[0][0]:
            if pos_var(v): continue
            if v.op == 'sqrt' and is_poly(v.a[0]): r = b_or(r, real_eq0(rpoly(v.a[0])))
            else: r = b_or(r, mk('ite', atom('eq', v), TRUE, FALSE))
        return r
    if p_pos(q) : return FALSE
    if q[-1][0] == () and q[-1][1] > 0 and p_nonneg(q): return FALSE
    # a sum of squares vanishes only if each term does
    if p_nonneg(q):
        r = TRUE
        for m, c in q: r = b_and(r, real_eq0(((m, Fraction(1)),)))
        return r
    return mk('ite', atom('eq', rat(q)), TRUE, FALSE)
def real_lt0(p):
    if pisconst(p): return boolc(pcval(p) < 0)
    s, q = _sign_norm(p)
    if len(q) == 1:  # sign of a product
        nlt = FALSE; eq = FALSE   # negative?, zero?
        for v, e in q[0][0]:
            if pos_var(v): continue
            if v.op == 'sqrt' and is_poly(v.a[0]): z = real_eq0(rpoly(v.a[0]))
            else: z = mk('ite', atom('eq', v), TRUE, FALSE)
            eq = b_or(eq, z)
            if e % 2 == 1 and not nonneg_var(v): nlt = b_xor(nlt, mk('ite', atom('lt', v), TRUE, FALSE) )
        nlt = b_and(b_not(eq), nlt)
    elif p_nonneg(q): nlt = FALSE; eq = real_eq0(q)
    else:
        eq = real_eq0(q); nlt = mk('ite', atom('lt', rat(q)), TRUE, FALSE)
        nlt = b_and(b_not(eq), nlt)
    if s > 0: return nlt
    return b_and(b_not(eq), b_not(nlt))
def _cmpparts(a, b):
    (n1, d1), (n2, d2) = rparts(a), rparts(b)
    if d1 == d2: return padd(n1, n2, -1), d1
    return padd(pmul(n1, d2), pmul(n2, d1), -1), pmul(d1, d2)
def _is_div0(t): return t.op == 'app' and t.a[0] == 'div0'
def _cmp0(a, b):
    """a < b where a quotient is divided by the constant zero: 0/0 compares false with everything, x/0 is infinite"""
    if _is_div0(a) and _is_div0(b): return None
    x = a.a[1] if _is_div0(a) else b.a[1]
    up = b_xor(real_lt0(rpoly(x)), zsign(PONE))          # +infinity (the sign of the zero is not known)
    return b_and(b_not(real_eq0(rpoly(x))), b_not(up) if _is_div0(a) else up)
def _lt(a, b):
    if _is_div0(a) or _is_div0(b):
        r = _cmp0(a, b)
        if r is not None: return r
    if a.op == 'huge' or b.op == 'huge': return boolc(b.op == 'huge' and a.op != 'huge')
    n, d = _cmpparts(a, b)
    if pisconst(d): return real_lt0(pscale(n, 1 / pcval(d)))
    dz = real_eq0(d)
    zs = zsign(d)
    nz = real_eq0(n); nn = real_lt0(n)
    atzero = _infinite(a, b, n, nz, nn, zs)
    if p_nonneg(d): ok = nn
    else: ok = ite(real_lt0(d), b_and(b_not(nn), b_not(nz)), nn)
    return ite(dz, atzero, ok)
def _infinite(a, b, n, nz, nn, zs):
    """a < b where the quotient has a zero divisor: against a finite value only the sign of the dividend counts"""
    (n1, d1), (n2, d2) = rparts(a), rparts(b)
    if d1 != d2 and (pisconst(d1) or pisconst(d2)):
        n = n1 if pisconst(d2) else pscale(n2, -1)
        nz = real_eq0(n); nn = real_lt0(n)
    return ite(nz, FALSE, ite(nn, b_not(zs), zs))
def zsign(d):
    s, q = _sign_norm(d)
    z = mk('ite', atom('b', mk('app', 'zsign', rat(q))), TRUE, FALSE)
    return z if s > 0 else b_not(z)
def lt(a, b): return lift('lt', _lt, a, b)
def _gt_eqz(a, b): return lt(b, a)
def gt(a, b): return lt(b, a)
def _le(a, b):
    if _is_div0(a) or _is_div0(b):
        r = _cmp0(a, b)
        if r is not None: return r
    if a.op == 'huge' or b.op == 'huge': return boolc(b.op == 'huge')
    n, d = _cmpparts(a, b)
    if pisconst(d):
        p = pscale(n, 1 / pcval(d)); return b_or(real_lt0(p), real_eq0(p))
    dz = real_eq0(d)
    zs = zsign(d); nz = real_eq0(n); nn = real_lt0(n)
    atzero = _infinite(a, b, n, nz, nn, zs)
    if p_nonneg(d): ok = b_or(nn, nz)
    else: ok = ite(real_lt0(d), b_not(nn), b_or(nn, nz))
    return ite(dz, atzero, ok)
def le(a, b): return lift('le', _le, a, b)
def ge(a, b): return le(b, a)
def _eq(a, b):
    if _is_div0(a) != _is_div0(b): return FALSE
    if a.op == 'huge' or b.op == 'huge': return boolc(b is a)
    n, d = _cmpparts(a, b)
    if pisconst(d): return real_eq0(n)
    return ite(real_eq0(d), FALSE, real_eq0(n))
def eq(a, b): return lift('eq', _eq, a, b)
# integers: thresholds q <= c
def int_le(p, c):
    """p <= c for an integer polynomial p without constant term"""
    d = dict(p); c = Fraction(c) - d.pop((), 0); p = pmake(d)
    if not p: return boolc(0 <= c)
    # clear denominators
    k = pcontent(p)
    s = 1
    if p[0][1] < 0: s = -1
    q = pscale(p, s / k); c = c / k
    # s*q <= c
    if s > 0:
        c = c.numerator // c.denominator
        return _int_atom(q, c)
    # -q <= c  <=>  q >= -c <=> not (q <= ceil(-c)-1)
    m = -c; m = -((-m.numerator) // m.denominator)
    return b_not(_int_atom(q, m - 1))
def _int_atom(q, c):
    if p_nonneg(q):
        if c < 0: return FALSE
    if all(k < 0 and mono_nonneg(m) for m, k in q) and c >= 0: return TRUE
    if prove_le(q, c): return TRUE
    if prove_le(pscale(q, -1), -c - 1): return FALSE
    return mk('ite', atom('le', rat(q), c), TRUE, FALSE)
REL = {}      # (sequence, field) -> sequence: assumed or proved "field of every element is an index of the other sequence"
def elements(t, f):
    """f(element) for every element expression of a sequence; None when the sequence has an opaque part without REL entry"""
    if t.op == 'ite':
        f1 = lambda q, at_, v: q
        a = elements(t.a[1], f); b = elements(t.a[2], f)
        if a is None or b is None: return None
        return [ite_atom(t.a[0], x, TRUE) for x in a] + [ite_atom(t.a[0], TRUE, x) for x in b]
    if t.op == 'lit': return [f(x) for x in t.a[0]]
    if t.op == 'cat':
        out = []
        for x in t.a[0]:
            r = elements(x, f)
            if r is None: return None
            out += r
        return out
    if t.op == 'fm':
        v = fresh(t.a[2], ''); BOUND[v] = t.a[0]
        body = open_(t, v)
        r = elements(body, f)
        return r
    if t.op in ('sym', 'fresh', 'rec', 'bv', 'proj', 'at'):
        v = fresh('nat'); BOUND[v] = length(t)
        return [f(at(t, v))]
    if t.op == 'upd':
        r = elements(t.a[0], f)
        return None if r is None else r + [f(t.a[2])]
    return None
def index_of(seq, field, nodes):
    """is `field` of every element of seq provably an index of `nodes`? """
    r = elements(seq, lambda x: ilt(proj(x, field), length(nodes)))
    return r is not None and all(x is TRUE for x in r)
UPPER = []    # assumed upper bounds: functions term -> inclusive upper bound term or None
def upper(v):
    n = BOUND.get(v)
    if n is not None and n.op != 'ite' and n.op != 'unk': return sub(n, ONE)
    if v.op in ('first', 'last') and v.a[0].op != 'ite': return sub(v.a[0], ONE)
    if v.op == 'app' and v.a[0] == 'irem' and v.a[2].op != 'ite': return sub(v.a[2], ONE)
    if v.op == 'sum' and v.a[0].op != 'ite':
        ls = leaves(v.a[3])
        if all(l is ZERO or l is ONE for l in ls): return v.a[0]
    if v.op == 'proj' and REL:
        w = v.a[0]
        if w.op == 'at':
            n = REL.get((w.a[0], v.a[1]))
            if n is not None:
                n = length(n)
                if n.op != 'ite' and n.op != 'unk': return sub(n, ONE)
    for f in UPPER:
        r = f(v)
        if r is not None: return r
    return None
def prove_le(p, c, depth=5):
    """Bounds propagation: is p <= c for all admissible values of the index variables?"""
    d = dict(p); k = d.pop((), 0)
    if k: c = c - k
    if not d: return 0 <= c
    if c >= 0 and all(a < 0 and mono_nonneg(m) for m, a in d.items()): return True
    if c >= -1 and any(a <= -1 and len(m) == 1 and m[0][0] in POSINT for m, a in d.items()) and all(a < 0 and mono_nonneg(m) for m, a in d.items()): return True
    if depth == 0: return False
    p = pmake(d)
    for m, a in p:
        if len(m) == 1 and m[0][1] == 1:
            v = m[0][0]
            if a > 0:
                u = upper(v)
                if u is not None and is_poly(u):
                    rest = pmake({x: y for x, y in p if x != m})
                    if prove_le(padd(rest, rpoly(u), a), c, depth - 1): return True
            elif nonneg_var(v):
                rest = pmake({x: y for x, y in p if x != m})
                if prove_le(rest, c - a if v in POSINT else c, depth - 1): return True
    return False
HUGE = mk('huge', 'MAX')
def _ipoly(a):
    if a.op == 'num' and a.a[1] != PONE: return None
    return rpoly(a)
def _ile(a, b):
    p, q = _ipoly(a), _ipoly(b)
    if p is None or q is None: return unk('rational integer')
    return int_le(padd(p, q, -1), 0)
def ile(a, b): return lift('ile', _ile, a, b)
def ilt(a, b): return ile(add(a, ONE), b)
def ieq(a, b): return b_and(ile(a, b), ile(b, a))
def ine(a, b): return b_not(ieq(a, b))

# ------------------------------------------------------------------ aggregates
def struct(path, names, fs):
    names = tuple(names); fs = tuple(fs)
    if fs and names:
        f0 = fs[0]
        if f0.op == 'proj':
            base = f0.a[0]
            if all(f.op == 'proj' and f.a[0] is base and f.a[1] == n for f, n in zip(fs, names)) and base.op in OPAQUE and (path != '()' or base.op != 'sym'):
                return base
    return mk('struct', path, names, fs)
def struct_raw(path, names, fs): return mk('struct', path, tuple(names), tuple(fs))
def tup(*xs): return struct('()', tuple(str(i) for i in range(len(xs))), xs)
def vec2(x, y): return struct('Vec2', ('x', 'y'), (x, y))
def enum(path, variant, names=(), fs=()): return mk('enum', path, variant, tuple(names), tuple(fs))
OPT = 'std::option::Option'; RES = 'std::result::Result'
NONE = enum(OPT, 'None')
def some(x): return enum(OPT, 'Some', ('0',), (x,))
def ok(x): return enum(RES, 'Ok', ('0',), (x,))
def err(x): return enum(RES, 'Err', ('0',), (x,))
def _proj(t, f):
    if t.op == 'struct':
        try: return t.a[2][t.a[1].index(f)]
        except ValueError: return unk('field %s of %s' % (f, t.a[0]))
    if t.op == 'unk': return t
    if t.op in OPAQUE: return mk('proj', t, f)
    return unk('proj %s of %s' % (f, t.op))
def proj(t, f): return lift('proj.' + f, lambda x: _proj(x, f), t)
def _isv(t, v):
    if t.op == 'enum': return boolc(t.a[1] == v)
    if t.op == 'unk': return t
    if t.op in OPAQUE: return as_bool(mk('isv', t, v))
    return unk('variant of %s' % t.op)
DUAL = {'None': 'Some', 'Err': 'Ok', 'Break': 'Continue'}
def isv(t, v):
    if v in DUAL: return b_not(isv(t, DUAL[v]))
    return lift('isv.' + v, lambda x: _isv(x, v), t)
def _pay(t, v, f):
    if t.op == 'enum':
        if t.a[1] != v: return DEAD
        try: return t.a[3][t.a[2].index(f)]
        except ValueError: return unk('payload')
    if t.op == 'unk': return t
    if t.op in OPAQUE: return mk('pay', t, v, f)
    return unk('payload of %s' % t.op)
DEAD = mk('dead')
def pay(t, v, f):
    """Payload of variant v; leaves of other variants are dead and are dropped from the diagram."""
    return undead(lift('pay.%s.%s' % (v, f), lambda x: _pay(x, v, f), t))
_und = {}
def undead(t):
    if t.op != 'ite': return t
    r = _und.get(t)
    if r is None:
        h, l = undead(t.a[1]), undead(t.a[2])
        r = l if h is DEAD else h if l is DEAD else ite_atom(t.a[0], h, l)
        _und[t] = r
    return r

# ------------------------------------------------------------------ binders
_fresh = [0]
def fresh(sort, hint=''):
    _fresh[0] += 1
    t = mk('fresh', _fresh[0], hint, sort)
    t.free = frozenset((t,))
    return t
def close(vs, bodies, extra_h=0):
    """Abstract the fresh variables vs in the bodies; returns (height, closed bodies)."""
    h = 1 + max([b.h for b in bodies] + [extra_h])
    m = {}
    for i, v in enumerate(vs):
        bv = mk('bv', h, i, v.a[-1])
        bv.free = frozenset((bv,))
        m[v] = bv
        if v in NAT: NAT.add(bv)
    return h, tuple(subst(b, m) for b in bodies)
def bvs(h, sorts):
    r = []
    for i, s in enumerate(sorts):
        bv = mk('bv', h, i, s); bv.free = frozenset((bv,)); r.append(bv)
    return r
def binder(op, n, var, body, *more):
    h, (b,) = close([var], [body])
    bv = mk('bv', h, 0, var.a[-1])
    return mk(op, n, h, var.a[-1], b, *more, h=max(h, n.h), free=(n.free | (b.free - {bv})) if (n.free or b.free) else EMPTY)
def open_(t, x):
    """Body of a one-variable binder term with its variable replaced by x."""
    return subst(t.a[3], {mk('bv', t.a[1], 0, t.a[2]): x})

_sub = {}
def subst(t, m):
    keys = frozenset(m)
    if not (t.free & keys): return t
    mk_ = tuple(sorted(((k.id, v.id) for k, v in m.items() if k in t.free)))
    key = (t, mk_)
    r = _sub.get(key)
    if r is None:
        r = _subst(t, {k: v for k, v in m.items() if k in t.free})
        _sub[key] = r
    return r
def psubst(p, m):
    r = ZERO
    for mono, c in p:
        x = num(c)
        for v, e in mono:
            y = subst(v, m)
            for _ in range(e): x = mul(x, y)
        r = add(r, x)
    return r
def _subst(t, m):
    op, a = t.op, t.a
    if t in m: return m[t]
    S = lambda x: subst(x, m)
    if op == 'num':
        n = psubst(a[0], m)
        if a[1] == PONE: return n
        return div(n, psubst(a[1], m))
    if op == 'ite':
        return ite(atom_subst(a[0], m), S(a[1]), S(a[2]))
    if op == 'struct': return struct(a[0], a[1], [S(x) for x in a[2]])
    if op == 'enum': return mk('enum', a[0], a[1], a[2], tuple(S(x) for x in a[3]))
    if op == 'proj': return proj(S(a[0]), a[1])
    if op == 'pay': return pay(S(a[0]), a[1], a[2])
    if op == 'isv': return isv(S(a[0]), a[1])
    if op == 'at': return at(S(a[0]), S(a[1]))
    if op == 'len': return length(S(a[0]))
    if op == 'sqrt': return sqrt(S(a[0]))
    if op in ('sin', 'cos', 'acos', 'tan', 'asin', 'atan', 'exp', 'ln'): return app1(op, S(a[0]))
    if op == 'app': return app(a[0], *[S(x) for x in a[1:]])
    if op == 'lit': return lit([S(x) for x in a[0]])
    if op == 'cat': return cat([S(x) for x in a[0]])
    if op == 'upd': return upd(S(a[0]), S(a[1]), S(a[2]))
    if op in BIND1:
        v = fresh(a[2]); n = S(a[0]); BOUND[v] = n
        body = subst(open_(t, v), m)
        return BIND1[op](n, v, body)
    if op == 'rec':
        ins, vs, nx, cont = rec_open(t)
        return rec_value([S(x) for x in ins], vs, [S(x) for x in nx], S(cont), 0)
    if op == 'mref': return mk('mref', a[0], tuple(S(x) if isinstance(x, T) else x for x in a[1]))
    if op in ('iter', 'closure', 'map', 'box'):
        return mk(op, *[S(x) if isinstance(x, T) else (tuple(S(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x) for x in a])
    raise Exception('subst ' + op)
def atom_subst(at_, m):
    kind, t, c, _ = at_.a
    t = subst(t, m)
    if kind == 'b': return as_bool(t)
    if kind == 'le': return ile(t, num(c))
    if kind == 'eq': return eq(t, ZERO)
    return lt(t, ZERO)

# ------------------------------------------------------------------ sequences
def lit(xs): return mk('lit', tuple(xs))
NIL = lit([])
def cat(parts):
    out = []
    for p in parts:
        if p.op == 'cat': ps = p.a[0]
        else: ps = (p,)
        for q in ps:
            if q is NIL: continue
            if q.op == 'lit' and out and out[-1].op == 'lit': out[-1] = lit(out[-1].a[0] + q.a[0])
            else: out.append(q)
    if not out: return NIL
    if len(out) == 1: return out[0]
    for i, p in enumerate(out):
        if p.op == 'ite':
            return ite_atom(p.a[0], cat(out[:i] + [p.a[1]] + out[i + 1:]), cat(out[:i] + [p.a[2]] + out[i + 1:]))
        if p.op == 'unk': return p
    return mk('cat', tuple(out))
def leaves(t):
    seen = set(); out = []
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'ite': go(x.a[1]); go(x.a[2])
        else: out.append(x)
    go(t); return out
def map_leaves(f, t, name):
    return lift(name, f, t)
def cofactor_le(t, q, c, val, memo=None):
    """Simplify diagram t knowing (q <= c) == val."""
    return restrict(t, atom('le', q, c), val)
def assume(t, cond):
    """Simplify diagram t under a condition that is a single threshold literal."""
    if cond.op == 'ite' and cond.a[0].a[0] == 'le' and cond.a[1].op == 'bool' and cond.a[2].op == 'bool' and t.op == 'ite':
        _, q, c, _ = cond.a[0].a
        return cofactor_le(t, q, c, cond.a[1] is TRUE)
    return t
def peel(op, n, var, body):
    """a range p + c, c > 0: the last c elements separately"""
    if n.op != 'num' or n.a[1] != PONE: return None
    d = dict(n.a[0]); c = d.pop((), 0)
    if not 1 <= c <= 3 or not d or c.denominator != 1: return None
    q = rat(pmake(d))
    if not p_nonneg(rpoly(q)) and not prove_le(pscale(rpoly(q), -1), 0): return None
    c = int(c)
    last = [subst(body, {var: add(q, num(i))}) for i in range(c)]
    v = fresh(var.a[-1]); BOUND[v] = q
    first = BIND1[op](q, v, subst(body, {var: v}))
    if op == 'fm': return cat([first] + last)
    if op == 'sum': return addn(first, *last)
    if op == 'exists': return b_or(first, *last)
def in_range(var, n, body): return assume(body, ilt(var, n))
def splitn(n, f):
    """Lift a constructor over a diagram-valued count."""
    if n.op == 'ite': return ite_atom(n.a[0], splitn(n.a[1], f), splitn(n.a[2], f))
    return f(n)

def fm(n, var, body):
    """concatenation of body(var) for var in 0..n"""
    if n.op == 'unk': return n
    return splitn(n, lambda n: _fm(n, var, body))
def _fm(n, var, body):
    if n is ZERO or (is_const(n) and cval(n) <= 0): return NIL
    if is_const(n) and cval(n) <= 8:
        return cat([subst(body, {var: num(i)}) for i in range(int(cval(n)))])
    body = in_range(var, n, body)
    if body is NIL: return NIL
    if body.op == 'unk': return body
    r = pull(_fm, n, var, body)
    if r is not None: return r
    if body.op == 'lit' and len(body.a[0]) == 1:
        e = body.a[0][0]
        if e.op == 'at' and e.a[1] is var and var not in e.a[0].free and length(e.a[0]) is n: return e.a[0]
        e2 = eta_struct_elem(e, var, n)
        if e2 is not None: return e2
    r = fuse('fm', n, var, body)
    if r is not None: return r
    r = peel('fm', n, var, body)
    if r is not None: return r
    return binder('fm', n, var, body)
def eta_struct_elem(e, var, n): return None
def fuse(op, n, var, body):
    """Loop over a flat-map: sum/exists/fm over i < len(S) whose body uses i only through S[i]."""
    s = indexed_seq(n, var, body)
    if s is None: return None
    x = fresh('any')
    b2 = replace_at(body, s, var, x)
    if b2 is None or var in b2.free: return None
    return over_seq(op, s, x, b2)
def indexed_seq(n, var, body):
    """a computed sequence of length n that the body reads at index var"""
    seen = set(); st = [body]
    while st:
        t = st.pop()
        if t in seen or var not in t.free: continue
        seen.add(t)
        if t.op == 'at' and t.a[1] is var and t.a[0].op in ('fm', 'cat') and var not in t.a[0].free and length(t.a[0]) is n: return t.a[0]
        if t.op == 'ite': st += [t.a[0].a[1], t.a[1], t.a[2]]
        else: st.extend(_kids(t.op, t.a))
    return None
def over_seq(op, s, x, b):
    """reduce `op` of b(x) over the elements x of sequence s"""
    comb = {'fm': lambda xs: cat(xs), 'sum': lambda xs: addn(*xs), 'exists': lambda xs: b_or(*xs)}[op]
    zero = {'fm': NIL, 'sum': ZERO, 'exists': FALSE}[op]
    con = {'fm': fm, 'sum': sum_, 'exists': exists}[op]
    def go(s):
        if s.op == 'lit': return comb([subst(b, {x: e}) for e in s.a[0]]) if s.a[0] else zero
        if s.op == 'cat': return comb([go(p) for p in s.a[0]])
        if s.op == 'ite': return ite_atom(s.a[0], go(s.a[1]), go(s.a[2]))
        if s.op == 'fm':
            v = fresh(s.a[2]); BOUND[v] = s.a[0]
            return con(s.a[0], v, go(open_(s, v)))
        if s.op == 'unk': return s
        v = fresh('nat'); BOUND[v] = length(s)
        return con(length(s), v, subst(b, {x: at(s, v)}))
    return go(s)
def replace_at(t, s, var, x):
    """Replace at(s, var) by x in t; None if it cannot be done cleanly."""
    tgt = mk('at', s, var)
    memo = {}
    def go(u):
        if var not in u.free: return u
        if u is tgt: return x
        if u is var: return u
        r = memo.get(u)
        if r is None: r = memo[u] = rebuild(u, go)
        return r
    return go(t)
def replace(t, m):
    """replace whole subterms"""
    memo = {}
    def go(u):
        if u in m: return m[u]
        r = memo.get(u)
        if r is None: r = memo[u] = rebuild(u, go)
        return r
    return go(t)
def rebuild(t, go):
    """Rebuild one level of t with go applied to the children (smart constructors)."""
    op, a = t.op, t.a
    if op == 'num':
        def P(p):
            r = ZERO
            for mono, c in p:
                y = num(c)
                for v, e in mono:
                    z = go(v)
                    for _ in range(e): y = mul(y, z)
                r = add(r, y)
            return r
        n = P(a[0])
        return n if a[1] == PONE else div(n, P(a[1]))
    if op == 'ite':
        k, x, c, _ = a[0].a
        x2 = go(x)
        cond = as_bool(x2) if k == 'b' else ile(x2, num(c)) if k == 'le' else eq(x2, ZERO) if k == 'eq' else lt(x2, ZERO)
        return ite(cond, go(a[1]), go(a[2]))
    if op == 'struct': return struct(a[0], a[1], [go(x) for x in a[2]])
    if op == 'enum': return mk('enum', a[0], a[1], a[2], tuple(go(x) for x in a[3]))
    if op == 'proj': return proj(go(a[0]), a[1])
    if op == 'pay': return pay(go(a[0]), a[1], a[2])
    if op == 'isv': return isv(go(a[0]), a[1])
    if op == 'at': return at(go(a[0]), go(a[1]))
    if op == 'len': return length(go(a[0]))
    if op == 'sqrt': return sqrt(go(a[0]))
    if op in ('sin', 'cos', 'acos', 'tan', 'asin', 'atan', 'exp', 'ln'): return app1(op, go(a[0]))
    if op == 'app': return app(a[0], *[go(x) for x in a[1:]])
    if op == 'lit': return lit([go(x) for x in a[0]])
    if op == 'cat': return cat([go(x) for x in a[0]])
    if op == 'upd': return upd(go(a[0]), go(a[1]), go(a[2]))
    if op in BIND1:
        v = fresh(a[2]); n = go(a[0]); BOUND[v] = n
        return BIND1[op](n, v, go(open_(t, v)))
    if op == 'rec':
        ins, vs, nx, cont = rec_open(t)
        return rec_value([go(x) for x in ins], vs, [go(x) for x in nx], go(cont), 0)
    if op == 'mref': return mk('mref', a[0], tuple(go(x) if isinstance(x, T) else x for x in a[1]))
    if op in ('iter', 'closure', 'map', 'box'):
        return mk(op, *[go(x) if isinstance(x, T) else (tuple(go(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x) for x in a])
    return t

def single(body):
    """The element if every iteration contributes exactly one (possibly diagram-valued) element."""
    if body.op == 'lit': return body.a[0][0] if len(body.a[0]) == 1 else None
    if body.op == 'ite':
        h, l = single(body.a[1]), single(body.a[2])
        if h is None or l is None: return None
        return ite_atom(body.a[0], h, l)
    return None
def _length(s):
    if s.op == 'lit': return num(len(s.a[0]))
    if s.op == 'cat': return addn(*[length(p) for p in s.a[0]])
    if s.op == 'upd': return length(s.a[0])
    if s.op == 'fm':
        if single(s.a[3]) is not None: return s.a[0]
        v = fresh('nat')
        return sum_(s.a[0], v, length(open_(s, v)))
    if s.op == 'unk': return s
    if s.op == 'str': return num(len(s.a[0]))
    if s.op in OPAQUE or s.op == 'iter': return mk('len', LENREP.get(s, s))
    return unk('len of ' + s.op)
def length(s): return lift('len', _length, s)
def _at(s, i):
    if s.op == 'unk' or i.op == 'unk': return s if s.op == 'unk' else i
    if s.op == 'lit':
        if is_const(i):
            c = cval(i)
            return s.a[0][int(c)] if 0 <= c < len(s.a[0]) else DEAD
        r = DEAD
        for j in range(len(s.a[0]) - 1, -1, -1):
            r = s.a[0][j] if r is DEAD else ite(ieq(i, num(j)), s.a[0][j], r)
        return r
    if s.op == 'upd':
        return ite(ieq(i, s.a[1]), s.a[2], at(s.a[0], i))
    if s.op == 'cat':
        off = ZERO; r = None
        parts = s.a[0]
        def go(k, off):
            n = length(parts[k])
            if k == len(parts) - 1: return at(parts[k], sub(i, off))
            return ite(ilt(i, add(off, n)), at(parts[k], sub(i, off)), go(k + 1, add(off, n)))
        return undead(go(0, ZERO))
    if s.op == 'fm':
        e = single(s.a[3])
        if e is not None: return subst(e, {mk('bv', s.a[1], 0, s.a[2]): i})
        return mk('at', s, i)
    if s.op in OPAQUE: return mk('at', s, i)
    return unk('at of ' + s.op)
def at(s, i):
    return undead(lift('at', _at, s, i))
def _upd(s, i, v):
    if s.op == 'unk': return s
    if i.op == 'unk': return i
    if s.op == 'lit' and is_const(i):
        xs = list(s.a[0]); c = int(cval(i))
        if 0 <= c < len(xs): xs[c] = v; return lit(xs)
        return s
    if s.op == 'fm' and single(s.a[3]) is not None:
        k = fresh('nat')
        return fm(s.a[0], k, map_lit1(ite(ieq(k, i), v, at(s, k))))
    return mk('upd', s, i, v)
def upd(s, i, v):
    return lift(('upd', v), lambda s, i: _upd(s, i, v), s, i)
def map_lit1(e): return lit([e])
def take(s, n):
    k = fresh('nat'); return fm(n, k, lit([at(s, k)]))
def skip(s, n):
    k = fresh('nat'); return fm(rcount(n, length(s)), k, lit([at(s, add(k, n))]))
def rcount(a, b):
    """max(b - a, 0) for unsigned a, b"""
    if a.op not in ('ite', 'unk') and b.op not in ('ite', 'unk'):
        d = sub(b, a)
        if is_poly(d) and not is_const(d) and p_nonneg(rpoly(d)): return d
    if a is ZERO: 
        return b if b.op != 'ite' and p_nonneg(rpoly(b)) or (is_const(b) and cval(b) >= 0) else ite(ilt(ZERO, b), b, ZERO)
    d = sub(b, a)
    return ite(ilt(a, b), d, ZERO)
def rev(s):
    def f(s):
        if s.op == 'lit': return lit(s.a[0][::-1])
        n = length(s); k = fresh('nat')
        return fm(n, k, lit([at(s, sub(sub(n, k), ONE))]))
    return lift('rev', f, s)
def remove_at(s, i):
    def f(s, i):
        if s.op == 'lit' and is_const(i): return lit(s.a[0][:int(cval(i))] + s.a[0][int(cval(i)) + 1:])
        k = fresh('nat')
        return fm(sub(length(s), ONE), k, lit([ite(ilt(k, i), at(s, k), at(s, add(k, ONE)))]))
    return lift('remove', f, s, i)
def swap_remove(s, i):
    n1 = sub(length(s), ONE)
    return upd(take(s, n1), i, at(s, n1))
def pop(s):
    def f(s):
        if s.op == 'lit': return lit(s.a[0][:-1])
        if s.op == 'cat' and s.a[0][-1].op == 'lit': return cat(list(s.a[0][:-1]) + [lit(s.a[0][-1].a[0][:-1])])
        return take(s, sub(length(s), ONE))
    return lift('pop', f, s)

# ------------------------------------------------------------------ reductions
def sum_(n, var, body):
    if n.op == 'unk': return n
    return splitn(n, lambda n: _sum(n, var, body))
def _sum(n, var, body):
    if body.op == 'unk': return body
    if is_const(n) and cval(n) <= 8:
        return addn(*[subst(body, {var: num(i)}) for i in range(int(max(0, cval(n))))])
    body = in_range(var, n, body)
    if body is ZERO: return ZERO
    r = pull(_sum, n, var, body)
    if r is not None: return r
    if body.op != 'ite':
        if var not in body.free: return mul(n, body)
        if is_poly(body):
            p = rpoly(body)
            if len(p) > 1 or any(var not in v.free for v, _ in p[0][0]) or p[0][1] != 1:
                r = ZERO
                for m, c in p:
                    dep = tuple((v, e) for v, e in m if var in v.free); ind = tuple((v, e) for v, e in m if var not in v.free)
                    r = add(r, mul(rat(((ind, Fraction(c)),)), _sum(n, var, rat(((dep, Fraction(1)),)))))
                return r
        else:
            d = body.a[1]
            if not any(var in v.free for m, _ in d for v, _ in m):
                return div(_sum(n, var, rat(body.a[0])), rat(d))
    r = one_point('sum', n, var, body)
    if r is not None: return r
    r = fuse('sum', n, var, body)
    if r is not None: return r
    r = peel('sum', n, var, body)
    if r is not None: return r
    t = binder('sum', n, var, body)
    if leaves_nat(body): NAT.add(t)
    return t
def leaves_nat(b): return all(l.op == 'num' and p_nonneg(l.a[0]) or nonneg_var(l) or l is ZERO for l in leaves(b))
def prod_(n, var, body):
    if n.op == 'unk': return n
    # a negative range is empty: max(0, m) and m mean the same here
    if n.op == 'ite' and n.a[0].a[0] == 'le' and n.a[1] is ZERO and n.a[2].op != 'ite' and is_poly(n.a[2]):
        d = sub(n.a[2], n.a[0].a[1])
        if is_const(d) and cval(d) + n.a[0].a[2] <= 0: n = n.a[2]
    return splitn(n, lambda n: _prod(n, var, body))
def _prod(n, var, body):
    if is_const(n) and cval(n) <= 8:
        r = ONE
        for i in range(int(max(0, cval(n)))): r = mul(r, subst(body, {var: num(i)}))
        return r
    body = in_range(var, n, body)
    if body is ONE: return ONE
    r = pull(_prod, n, var, body)
    if r is not None: return r
    for _ in range(4):      # a factor 1 in front of the range: include it
        if subst(body, {var: num(-1)}) is not ONE: break
        body = subst(body, {var: sub(var, ONE)}); n = add(n, ONE)
    t = binder('prod', n, var, body)
    if leaves_nat(body):
        NAT.add(t)
        if all(l.op == 'num' and l.a[1] == PONE and cval_pos(l.a[0]) for l in leaves(body)): POSINT.add(t)
    return t
def cval_pos(p): return p_nonneg(p) and dict(p).get((), 0) >= 1
def exists(n, var, body):
    if n.op == 'unk': return n
    body = as_bool(body)
    return splitn(n, lambda n: _exists(n, var, body))
def _exists(n, var, body):
    if body.op == 'unk': return body
    if is_const(n) and cval(n) <= 8:
        return b_or(*[subst(body, {var: num(i)}) for i in range(int(max(0, cval(n))))])
    body = in_range(var, n, body)
    if body is FALSE: return FALSE
    if body is TRUE or var not in body.free:
        return b_and(ilt(ZERO, n), body)
    r = pull(_exists, n, var, body)
    if r is not None: return r
    r = one_point('exists', n, var, body)
    if r is not None: return r
    r = intervals(n, var, body)
    if r is not None: return r
    r = fuse('exists', n, var, body)
    if r is not None: return r
    r = peel('exists', n, var, body)
    if r is not None: return r
    return as_bool(binder('exists', n, var, body))
def intervals(n, var, body):
    """exists over a body that depends on the variable only through thresholds +-var + rest <= c: its truth is constant
    between the points where a threshold flips, so testing 0 and those points decides it"""
    if body.op != 'ite': return None
    pts = [ZERO]; seen = set(); st = [body]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op != 'ite':
            if x.op != 'bool': return None
            continue
        k, q, c, _ = x.a[0].a
        if var in q.free:
            if k != 'le' or not is_poly(q): return None
            p = dict(rpoly(q)); cv = p.pop(((var, 1),), None)
            if cv not in (1, -1) or any(var in v.free for m in p for v, _ in m): return None
            rest = rat(pmake(p))
            # +var + rest <= c becomes false at c - rest + 1;  -var + rest <= c becomes true at rest - c
            e = sub(num(c + 1), rest) if cv == 1 else sub(rest, num(c))
            if e not in pts: pts.append(e)
            if len(pts) > 3: return None
        st += [x.a[1], x.a[2]]
    return b_or(*[b_and(ile(ZERO, e), ilt(e, n), subst(body, {var: e})) for e in pts])
def pull(con, n, var, body):
    """pull conditions that do not depend on the variable out of a comprehension body"""
    if body.op != 'ite' and not body.cd: return None
    out = indep_atoms(body, var)
    if not out: return None
    top = min(out, key=akey)
    if len(out) > 10: return None
    hi = restrict(body, top, True); lo = restrict(body, top, False)
    if hi is body or lo is body: return None
    return ite(mknode(top, TRUE, FALSE), con(n, var, hi), con(n, var, lo))
_iat = {}
def all_atoms(t):
    r = _iat.get(t)
    if r is None:
        seen = set(); out = {}; st = [t]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'ite':
                out[x.a[0]] = True; st.append(x.a[1]); st.append(x.a[2])
            elif x.cd: st.extend(_kids(x.op, x.a))
        r = _iat[t] = list(out)
    return r
def indep_atoms(body, var):
    return [a for a in all_atoms(body) if var not in a.a[1].free]
_restr = {}
def restrict(t, at_, val, memo=None):
    """Simplify diagram t under the assumption that atom at_ has truth value val."""
    if t.op != 'ite' and not t.cd: return t
    if memo is None: memo = _restr.setdefault((at_, val), {})
    r = memo.get(t)
    if r is None and t.op != 'ite':
        r = memo[t] = rebuild(t, lambda x: restrict(x, at_, val, memo))
    if r is None:
        k, q, c, _ = t.a[0].a
        d = None
        if t.a[0] is at_: d = val
        elif q is at_.a[1]:
            k2, _, c2, _ = at_.a
            if k == 'le' and k2 == 'le':
                if val and c >= c2: d = True
                elif not val and c <= c2: d = False
            elif k2 == 'eq' and val and k == 'lt': d = False
            elif k2 == 'lt' and val and k == 'eq': d = False
        if d is not None: r = restrict(t.a[1] if d else t.a[2], at_, val, memo)
        else:
            h = restrict(t.a[1], at_, val, memo); l = restrict(t.a[2], at_, val, memo)
            r = t if h is t.a[1] and l is t.a[2] else ite_atom(t.a[0], h, l)
        memo[t] = r
    return r
def one_point(op, n, var, body):
    """Recognise a body that is false/zero unless var == e (e independent of var)."""
    if body.op != 'ite': return None
    # candidate equalities: thresholds  +-var + rest <= c
    cands = []
    def go(x, seen=set()):
        pass
    seen = set(); st = [body]
    while st:
        x = st.pop()
        if x.op != 'ite' or x in seen: continue
        seen.add(x)
        k, q, c, _ = x.a[0].a
        if k == 'le' and var in q.free:
            p = dict(rpoly(q)); cv = p.pop(((var, 1),), None)
            if cv in (1, -1) and not any(var in v.free for m in p for v, _ in m):
                # q = cv*var + rest ; boundary at q == c and q == c+1
                rest = rat(pmake(p))
                for cc in (c, c + 1):
                    e = mul(num(cv), sub(num(cc), rest))
                    if e not in cands: cands.append(e)
        st += [x.a[1], x.a[2]]
    zero = FALSE if op == 'exists' else ZERO
    for e in cands[:6]:
        off = restrict_neq(body, var, e)
        if off is zero:
            inr = b_and(ile(ZERO, e), ilt(e, n))
            return ite(inr, subst(body, {var: e}), zero)
    return None
def restrict_neq(body, var, e):
    """body under var != e, as a decision diagram; checked on the two sides var < e and var > e."""
    lo = assume_dd(body, ilt(var, e)); hi = assume_dd(body, ilt(e, var))
    return lo if lo is hi else body
def assume_dd(body, cond):
    if cond is TRUE: return body
    if cond is FALSE: return FALSE if body.op == 'bool' else body
    return assume(body, cond)
def first(n, var, body):
    """least var < n with body, meaningful only if one exists"""
    if n.op == 'unk': return n
    body = as_bool(body)
    if body.op == 'unk': return body
    if n.op == 'ite': return ite_atom(n.a[0], first(n.a[1], var, body), first(n.a[2], var, body))
    body = in_range(var, n, body)
    r = one_point_val(n, var, body)
    if r is not None: return r
    r = pull(first, n, var, body)
    if r is not None: return r
    return binder('first', n, var, body)
def one_point_val(n, var, body):
    if body is TRUE: return ZERO
    return None
def last(n, var, body):
    if n.op == 'unk': return n
    body = as_bool(body)
    if body.op == 'unk': return body
    if n.op == 'ite': return ite_atom(n.a[0], last(n.a[1], var, body), last(n.a[2], var, body))
    body = in_range(var, n, body)
    if body is TRUE: return sub(n, ONE)
    r = pull(last, n, var, body)
    if r is not None: return r
    return binder('last', n, var, body)
def minv(n, var, body):
    """least body(var) over var < n, meaningful only if n > 0"""
    if n.op == 'unk': return n
    if body.unk: return unk('min')
    if n.op == 'ite': return ite_atom(n.a[0], minv(n.a[1], var, body), minv(n.a[2], var, body))
    if is_const(n) and 1 <= cval(n) <= 8:
        r = subst(body, {var: ZERO})
        for i in range(1, int(cval(n))): r = fmin(r, subst(body, {var: num(i)}))
        return r
    body = in_range(var, n, body)
    if var not in body.free: return body
    r = pull(minv, n, var, body)
    if r is not None: return r
    return binder('min', n, var, body)
BIND1 = {'min': minv, 'fm': fm, 'sum': sum_, 'prod': prod_, 'exists': exists, 'first': first, 'last': last}

# ------------------------------------------------------------------ recurrences
def rec_values(inits, vs, nexts, cont, targets):
    """loop { if !cont(s) break; s = next(s) }: exit values of the state components listed in targets."""
    return [rec_value(inits, vs, nexts, cont, i) for i in targets]
_rv = {}
def rec_value(inits, vs, nexts, cont, i):
    if cont is FALSE: return inits[i]
    # dependency slice
    need = {i} | {j for j, v in enumerate(vs) if v in cont.free}
    while True:
        more = {j for j, v in enumerate(vs) if j not in need and any(v in nexts[q].free for q in need)}
        if not more: break
        need |= more
    # components that never change are constants
    const = {j for j in need if nexts[j] is vs[j]}
    if const:
        m = {vs[j]: inits[j] for j in const}
        if i in const: return inits[i]
        nx = [subst(x, m) for x in nexts]; ct = subst(cont, m)
        keep = [j for j in range(len(vs)) if j not in const]
        return rec_value([inits[j] for j in keep], [vs[j] for j in keep], [nx[j] for j in keep], ct, keep.index(i))
    idx = sorted(need)
    for j in idx:
        if inits[j].unk or nexts[j].unk: return unk('recurrence')
    if cont.unk: return unk('recurrence')
    # canonical order of the state components
    col = {j: (0 if j == i else 1, inits[j].id, vs[j].a[-1]) for j in idx}
    for _ in range(len(idx)):
        names = {c: n for n, c in enumerate(sorted(set(col.values())))}
        if len(names) == len(idx): break
        m = {vs[j]: mk('col', names[col[j]], vs[j].a[-1]) for j in idx}
        new = {j: (names[col[j]], subst(nexts[j], m).id, 0) for j in idx}
        if len(set(new.values())) == len(names): break
        col = new
    order = [i] + sorted((j for j in idx if j != i), key=lambda j: col[j])
    ins = tuple(inits[j] for j in order); ovs = [vs[j] for j in order]
    h, bs = close(ovs, [nexts[j] for j in order] + [cont])
    sorts = tuple(v.a[-1] for v in ovs)
    bound = frozenset(bvs(h, sorts))
    fr = EMPTY
    for x in ins: fr |= x.free
    for x in bs: fr |= x.free - bound
    return mk('rec', ins, h, sorts, bs[:-1], bs[-1], h=max([h] + [x.h for x in ins]), free=fr)
def rec_open(t):
    inits, h, sorts, nx, cont = t.a
    vs = [fresh(x) for x in sorts]
    m = dict(zip(bvs(h, sorts), vs))
    return list(inits), vs, [subst(x, m) for x in nx], subst(cont, m)

# ------------------------------------------------------------------ opaque applications
SYM2 = {'abs_diff_eq', 'relative_eq', 'ulps_eq'}
def flip_sign(a, b):
    n = [x.a[0][0][1] < 0 for x in (a, b) if x.op == 'num' and x.a[0]]
    if not n: return False
    if a.op == 'num' and b.op == 'num' and len(n) == 2: return sorted((a.a[0], b.a[0]), key=lambda p: [(tuple((v.id, e) for v, e in m), abs(c)) for m, c in p])[0][0][1] < 0
    return n[0] and all(x.op == 'num' for x in (a, b))
def app(name, *args):
    for x in args:
        if x.op == 'unk': return x
    def f(*xs):
        if name in SYM2:     # symmetric, and unchanged when both operands are negated
            a, b = xs[:2]
            if flip_sign(a, b): a, b = neg(a), neg(b)
            if a.id > b.id: a, b = b, a
            xs = (a, b) + xs[2:]
        if name == 'irem': return _irem(*xs)
        if name == 'idiv': return _idiv(*xs)
        return mk('app', name, *xs)
    return lift('app.' + name, f, *args)
def _irem(a, b):
    if is_const(a) and is_const(b) and cval(b) > 0: return num(int(cval(a)) % int(cval(b)))
    if is_const(b) and cval(b) == 1: return ZERO
    # (k + 1) mod n with k an index below n
    r = irem_hint(a, b)
    if r is not None: return r
    return mk('app', 'irem', a, b)
BOUND = {}    # fresh index variable -> exclusive upper bound (set while a loop or comprehension body is analysed)
def irem_hint(a, b):
    if a.op == 'fresh' and BOUND.get(a) is b: return a
    if is_poly(a):
        d = dict(rpoly(a)); c = d.pop((), 0)
        if len(d) == 1:
            (m, k), = d.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and c == 1:
                v = m[0][0]
                if BOUND.get(v) is b: return ite(ieq(add(v, ONE), b), ZERO, add(v, ONE))
    return None
def _idiv(a, b):
    if is_const(a) and is_const(b) and cval(b) > 0: return num(int(cval(a)) // int(cval(b)))
    if is_const(b) and cval(b) == 1: return a
    return mk('app', 'idiv', a, b)
def sym(name, ty=None): return mk('sym', name)
def string(s): return mk('str', s)
EPS = mk('eps', 'f32::EPSILON')

# ------------------------------------------------------------------ printing
def showp(p):
    if not p: return '0'
    out = []
    for m, c in p:
        s = '*'.join(show(v) + ('^%d' % e if e > 1 else '') for v, e in m)
        if m == (): s = str(c)
        elif c == -1: s = '-' + s
        elif c != 1: s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')
def show(t, depth=0):
    if depth > 40: return '...'
    S = lambda x: show(x, depth + 1)
    op, a = t.op, t.a
    if op == 'num':
        n = showp(a[0])
        return n if a[1] == PONE else '(%s)/(%s)' % (n, showp(a[1]))
    if op == 'bool': return str(a[0]).lower()
    if op == 'ite':
        return '(%s ? %s : %s)' % (showatom(a[0]), S(a[1]), S(a[2]))
    if op == 'struct': return '%s{%s}' % ('' if a[0] == '()' else a[0].split('::')[-1], ', '.join('%s: %s' % (n, S(x)) if a[0] != '()' else S(x) for n, x in zip(a[1], a[2])))
    if op == 'enum': return a[1] + ('(%s)' % ', '.join(S(x) for x in a[3]) if a[3] else '')
    if op == 'sym': return a[0]
    if op == 'proj': return S(a[0]) + '.' + a[1]
    if op == 'at': return '%s[%s]' % (S(a[0]), S(a[1]))
    if op == 'len': return '|%s|' % S(a[0])
    if op == 'lit': return '[%s]' % ', '.join(S(x) for x in a[0])
    if op == 'cat': return ' ++ '.join(S(x) for x in a[0])
    if op == 'bv': return 'k%d%s' % (a[0], '' if a[1] == 0 else '_%d' % a[1])
    if op == 'fresh': return '%s#%d' % (a[1] or 'v', a[0])
    if op == 'fm':
        return '[%s | k%d < %s]' % (S(a[3]), a[1], S(a[0]))
    if op in ('sum', 'prod', 'exists', 'first', 'last', 'min'): return '%s{k%d < %s}(%s)' % (op, a[1], S(a[0]), S(a[3]))
    if op == 'app': return '%s(%s)' % (a[0], ', '.join(S(x) for x in a[1:]))
    if op == 'eps': return 'EPS'
    if op == 'upd': return '%s with [%s] = %s' % tuple(map(S, a))
    if op == 'rec': return 'rec(init=(%s); while %s; next=(%s))' % (', '.join(map(S, a[0])), S(a[4]), ', '.join(map(S, a[3])))
    if op == 'mref': return '&mut %s%s' % (a[0], ''.join('[%s]' % S(x) if isinstance(x, T) else '.%s' % (x,) for x in a[1]))
    if op == 'isv': return '%s is %s' % (S(a[0]), a[1])
    if op == 'pay': return '%s.%s.%s' % (S(a[0]), a[1], a[2])
    if op == 'str': return repr(a[0])
    return '%s(%s)' % (op, ', '.join(S(x) if isinstance(x, T) else str(x) for x in a))
def showatom(at_):
    k, t, c, _ = at_.a
    return show(t) if k == 'b' else '%s <= %s' % (show(t), c) if k == 'le' else '%s == 0' % show(t) if k == 'eq' else '%s < 0' % show(t)
