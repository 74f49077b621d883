"""C01-C07: the geometric algebra.  Expected component tables are generated from the Clifford algebra itself
(basis blades as bit masks, e_i^2 = +1, anticommuting), not transcribed from the code."""
from core import *

# ------------------------------------------------------------------ the Clifford algebra of Euclidean 3-space
def blade_mul(a, b):
    """sign of the product of two basis blades given as bit masks"""
    s = 0; x = a >> 1
    while x:
        s += bin(x & b).count('1'); x >>= 1
    return (-1 if s & 1 else 1), a ^ b
def gp(u, v):
    """geometric product of two multivectors {mask: term}"""
    r = {}
    for a, x in u.items():
        for b, y in v.items():
            s, m = blade_mul(a, b)
            r[m] = add(r.get(m, ZERO), mul(num(s), mul(x, y)))
    return r
def grade(u, *ks): return {m: x for m, x in u.items() if bin(m).count('1') in ks}
def rev_mv(u): return {m: (mul(num(-1), x) if bin(m).count('1') in (2, 3) else x) for m, x in u.items()}
def scale(u, k): return {m: mul(x, k) for m, x in u.items()}
SHAPE = {'Vector3': (1, 2, 4), 'Bivector3': (3, 5, 6), 'Trivector3': (7,), 'Rotor3': (0, 3, 5, 6)}
SHORT = {'Vector3': 'v', 'Bivector3': 'b', 'Trivector3': 't', 'Rotor3': 'r'}

class Alg:
    """symbolic values of the four algebra types, built only through their public constructors"""
    def __init__(s, cx):
        s.cx = cx; s.tpl = {}
        for ty in ('Vector3', 'Bivector3', 'Trivector3'):
            f = cx.method(ty, 'new')
            n = len(SHAPE[ty]); nm = ['#%s%d' % (ty, i) for i in range(n)]
            r = cx.summ(f, nm)
            s.tpl[ty] = (r.ret, [sym(x) for x in nm])
        f = cx.method('Rotor3', 'new')
        b, bs = s.tpl['Bivector3']; sc = sym('#Rotor30')
        r = cx.summ(f, ['#Rotor30', '#rb'], [sc, b])
        s.tpl['Rotor3'] = (r.ret, [sc] + bs)
    def build(s, ty, comps):
        t, ps = s.tpl[ty]
        return subst_sym(t, dict(zip(ps, comps)))
    def arg(s, ty, pre):
        """(value, multivector) with fresh component symbols"""
        comps = [sym('%s%d' % (pre, i)) for i in range(len(SHAPE[ty]))]
        return s.build(ty, comps), dict(zip(SHAPE[ty], comps))
    def of(s, ty, mv): return s.build(ty, [mv.get(m, ZERO) for m in SHAPE[ty]])
    def m(s, ty, name, trait=None, arg=None):
        """a method: inherent, of a trait impl, or the trait's provided one"""
        c = s.cx.p.method(ty, name, trait, arg)
        if c: return c[0]
        if trait:
            d = [f for f in s.cx.p.d['fns'] if f.get('name') == name and f.get('traitdefault') and 'body' in f and (f.get('trait') or f['path']).split('::')[-2 if not f.get('trait') else -1] == trait]
            has = [f for f in s.cx.p.d['fns'] if f.get('trait', '').split('::')[-1] == trait and 'implself' in f and s.cx.p.tpath(f['implself']).split('::')[-1] == ty]
            if d and has: return d[0]
        raise Missing('%s::%s%s' % (ty, name, ' of trait %s%s' % (trait, '<%s>' % arg if arg else '') if trait else ''))
def subst_sym(t, m):
    memo = {}
    def go(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is None: r = memo[x] = rebuild_leaf(x, go)
        return r
    return go(t)
def rebuild_leaf(x, go):
    if x.op in ('sym', 'bool', 'eps', 'huge', 'str', 'unk'): return x
    return TM.rebuild(x, go)

def dom(*names, **kinds):
    """a structure: one number per symbol"""
    def f(rng, h, i):
        val = {}
        z = rng.random()
        for n in names:
            x = h.number(rng)
            if z < 0.15 and rng.random() < 0.6: x = F(0)
            val[n] = x
        if rng.random() < 0.15:       # absolute thresholds show on short or long operands
            k = rng.choice((F(1, 16), F(1, 1024), F(1, 10 ** 5), F(1, 10 ** 8), F(1, 10 ** 12), F(1000), F(10 ** 7)))
            for n in names: val[n] *= k
        for n, k in kinds.items():
            if k == 'angle': val[n] = rng.choice((F(0), F(1), F(-1), F(2), F(3), F(1, 3), F(22, 7), F(-7, 2), F(10), F(5, 4)))
            if k == 'nz': 
                while val.get(n, 0) == 0: val[n] = h.number(rng)
        return val
    return f
def names(ty, pre): return ['%s%d' % (pre, i) for i in range(len(SHAPE[ty]))]
def nonzero(u):
    """precondition: some component is non-zero"""
    r = FALSE
    for x in u.values(): r = b_or(r, b_not(eq(x, ZERO)))
    return r
def nsq(u):
    r = ZERO
    for x in u.values(): r = add(r, mul(x, x))
    return r

RULE_EQ = 'the summary of the function equals the generated normal form, component by component'

def c01(cx):
    A = Alg(cx)
    def ob(lt_, rt, trait, name, spec):
        def actual(f):
            u, _ = A.arg(lt_, 'u'); v, _ = A.arg(rt, 'w')
            return cx.summ(f, ['u', 'w'], [u, v]).ret
        def sp(f):
            _, u = A.arg(lt_, 'u'); _, v = A.arg(rt, 'w')
            return spec(u, v)
        cx.eq('%s.%s(%s)' % (lt_, name, rt), lambda: A.m(lt_, name, trait, rt), actual, sp, RULE_EQ, dom(*(names(lt_, 'u') + names(rt, 'w'))))
    g0 = lambda u, v: gp(u, v).get(0, ZERO)
    for t in ('Vector3', 'Bivector3', 'Trivector3', 'Rotor3'): ob(t, t, 'Contraction', 'dot', g0)
    ob('Vector3', 'Vector3', 'Exterior', 'wedge', lambda u, v: A.of('Bivector3', grade(gp(u, v), 2)))
    ob('Bivector3', 'Bivector3', 'Exterior', 'wedge', lambda u, v: A.of('Bivector3', grade(gp(u, v), 2)))
    ob('Bivector3', 'Vector3', 'Exterior', 'wedge', lambda u, v: A.of('Trivector3', grade(gp(u, v), 3)))
    ob('Trivector3', 'Trivector3', 'Exterior', 'wedge', lambda u, v: ZERO)
    ob('Vector3', 'Vector3', 'Mul', 'mul', lambda u, v: A.of('Rotor3', gp(u, v)))
    ob('Bivector3', 'Bivector3', 'Mul', 'mul', lambda u, v: A.of('Rotor3', gp(u, v)))
    ob('Rotor3', 'Rotor3', 'Mul', 'mul', lambda u, v: A.of('Rotor3', gp(u, v)))
    ob('Trivector3', 'Trivector3', 'Mul', 'mul', g0)
    ob('Vector3', 'Bivector3', 'Mul', 'mul', lambda u, v: tup(A.of('Vector3', gp(u, v)), A.of('Trivector3', gp(u, v))))
    ob('Rotor3', 'Vector3', 'Mul', 'mul', lambda u, v: tup(A.of('Vector3', gp(u, v)), A.of('Trivector3', gp(u, v))))

def c02(cx):
    A = Alg(cx)
    for ty in SHAPE:
        n = names(ty, 'u')
        def act(f, ty=ty):
            u, _ = A.arg(ty, 'u'); return cx.summ(f, ['u'], [u]).ret
        U = A.arg(ty, 'u')[1]
        nz = nonzero(U)
        M = lambda nm, ty=ty: (lambda: A.m(ty, nm, 'Norm'))
        cx.eq('%s.norm_squared' % ty, M('norm_squared'), act, nsq(U), 'sum of the squares of all components', dom(*n))
        cx.eq('%s.norm' % ty, M('norm'), act, sqrt(nsq(U)), 'square root of the sum of squares', dom(*n))
        cx.eq('%s.normalize' % ty, M('normalize'), act, A.of(ty, scale(U, div(ONE, sqrt(nsq(U))))), 'every component divided by the norm', dom(*n), pre=nz)
        if ty == 'Rotor3': cx.eq('Rotor3.inverse', M('inverse'), act, A.of(ty, rev_mv(U)), 'the reverse', dom(*n))
        else:
            # the inverse is unique: X^-1 = reverse(X) / |X|^2
            inv = scale(rev_mv(U), div(ONE, nsq(U)))
            assert gp(inv, U).get(0) is ONE
            cx.eq('%s.inverse' % ty, M('inverse'), act, A.of(ty, inv), 'the multiplicative inverse under the geometric product', dom(*n), pre=nz)

def c03(cx):
    A = Alg(cx)
    R, Rm = A.arg('Rotor3', 'r'); S, Sm = A.arg('Rotor3', 's'); U, Um = A.arg('Vector3', 'u'); W, Wm = A.arg('Vector3', 'w')
    rot = lambda: A.m('Rotor3', 'rotate')
    dm = dom(*(names('Rotor3', 'r') + names('Rotor3', 's') + names('Vector3', 'u') + names('Vector3', 'w')))
    sand = lambda R, U: gp(gp(R, U), rev_mv(R))
    cx.eq('rotate', rot, lambda f: cx.summ(f, ['r', 'u'], [R, U]).ret, A.of('Vector3', sand(Rm, Um)), 'vector part of R u R~', dm)
    cx.eq('identity', lambda: A.m('Rotor3', 'identity'), lambda f: cx.summ(f, []).ret, A.of('Rotor3', {0: ONE}), 'the scalar 1', dm)
    def compose(f):
        prod = cx.summ(f, ['r', 's'], [R, S]).ret
        return cx.summ(rot(), ['r', 'u'], [prod, U]).ret
    def seq(f):
        x = cx.summ(rot(), ['s', 'u'], [S, U]).ret
        return cx.summ(rot(), ['r', 'u'], [R, x]).ret
    cx.eq('composition: rotate by R*S = rotate by S, then by R', lambda: A.m('Rotor3', 'mul', 'Mul', 'Rotor3'), compose, seq, 'R S u (R S)~ = R (S u S~) R~', dm)
    # from_vectors: unit norm, takes u/|u| to w/|w|: both facts characterise the rotor up to sign; the sign is fixed by the half-angle form
    nu, nw = sqrt(nsq(Um)), sqrt(nsq(Wm))
    uh, wh = scale(Um, div(ONE, nu)), scale(Wm, div(ONE, nw))
    pr = gp(wh, uh); pr[0] = add(pr[0], ONE)
    pre = b_and(nonzero(Um), nonzero(Wm), gt(pr[0], ZERO))
    fv = lambda: A.m('Rotor3', 'from_vectors')
    def fvr(f): return cx.summ(f, ['u', 'w'], [U, W]).ret
    n = nsq(pr)
    spec = A.of('Rotor3', scale(pr, div(ONE, sqrt(n))))
    cx.eq('from_vectors', fv, fvr, spec, 'unit rotor (1 + w u)/|1 + w u| of the directions: turns u/|u| into w/|w|', dm, pre=pre, judge=rotor_judge(cx, A))
    P, Pm = A.arg('Bivector3', 'p')
    th = sym('a'); half = div(th, num(2))
    da = dom(*names('Bivector3', 'p'), a='angle')
    def fap(plane): 
        r = {0: app1('cos', half)}
        for m, x in plane.items(): r[m] = neg(mul(x, app1('sin', half)))
        return A.of('Rotor3', r)
    cx.eq('from_angle_plane', lambda: A.m('Rotor3', 'from_angle_plane'), lambda f: cx.summ(f, ['a', 'p'], [th, P]).ret, fap(Pm), 'cos(a/2) - sin(a/2) P', da_unit(A, da), judge=rotor_judge(cx, A), pre=eq(nsq(Pm), ONE))
    for nm, mk_ in (('xy', 3), ('xz', 5), ('yz', 6)):
        cx.eq('from_%s_rotation' % nm, lambda nm=nm: A.m('Rotor3', 'from_%s_rotation' % nm), lambda f: cx.summ(f, ['a'], [th]).ret, fap({mk_: ONE}), 'rotation of the plane it is named after', da, judge=rotor_judge(cx, A))

def da_unit(A, d):
    """bivectors of unit area"""
    U = [(F(1), F(0), F(0)), (F(0), F(1), F(0)), (F(0), F(0), F(1)), (F(3, 5), F(4, 5), F(0)), (F(2, 3), F(-1, 3), F(2, 3)), (F(-6, 7), F(3, 7), F(2, 7)), (F(0), F(-5, 13), F(12, 13))]
    def f(rng, h, i):
        v = d(rng, h, i)
        p = rng.choice(U); p = rng.sample(list(p), 3)
        for k, x in enumerate(p): v['p%d' % k] = x * rng.choice((1, -1))
        return v
    return f
def rotor_judge(cx, A):
    """two rotors are the same rotation when they agree up to sign"""
    def j(ev, val, x, y):
        try: u, v = flat(x), flat(y)
        except Skip: return None
        if same(u, v) or same(tuple(-a for a in u), v): return None
        return 'the rotor is %s, the property requires %s (or its negative)' % (rp(u), rp(v))
    return j
def flat(x):
    if isinstance(x, Rec):
        r = ()
        for v in x.vals: r += flat(v)
        return r
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool): return (x,)
    raise Skip('not a number')

def c04(cx):
    A = Alg(cx)
    k = sym('k')
    kz = b_not(eq(k, ZERO))
    for ty in SHAPE:
        U, Um = A.arg(ty, 'u'); W, Wm = A.arg(ty, 'w')
        d = dom(*(names(ty, 'u') + names(ty, 'w')), k='nz')
        cw = lambda f: A.of(ty, {m: f(Um[m], Wm[m]) for m in SHAPE[ty]})
        for tr, nm, f, arg in (('Add', 'add', add, None), ('Sub', 'sub', sub, None), ('Mul', 'mul', mul, 'param'), ('Div', 'div', div, 'param')):
            if arg is None: R, rn, sp = W, 'w', cw(f)
            else: R, rn, sp = k, 'k', A.of(ty, {m: f(Um[m], k) for m in SHAPE[ty]})
            pre = kz if nm == 'div' else TRUE
            a2 = ty if arg is None else 'param'
            if (ty, nm) != ('Trivector3', 'mul'):     # the crate has no trivector * scalar, only *=
              cx.eq('%s %s %s' % (ty, nm, rn), lambda: A.m(ty, nm, tr, a2), lambda fn: cx.summ(fn, ['u', rn], [U, R]).ret, sp, 'component-wise, on every component', d, pre=pre)
            cx.eq('%s %s_assign %s' % (ty, nm, rn), lambda: A.m(ty, nm + '_assign', tr + 'Assign', a2), lambda fn: cx.summ(fn, ['u', rn], [U, R]).muts['u'], sp, 'leaves in the left operand what the binary operator returns', d, pre=pre)
        cx.eq('%s neg' % ty, lambda: A.m(ty, 'neg', 'Neg'), lambda fn: cx.summ(fn, ['u'], [U]).ret, A.of(ty, scale(Um, num(-1))), 'component-wise, on every component', d)
        cx.eq('%s clone' % ty, lambda: A.m(ty, 'clone', 'Clone'), lambda fn: cx.summ(fn, ['u'], [U]).ret, U, 'an equal value', d)
        alleq = TRUE
        for m in SHAPE[ty]: alleq = b_and(alleq, eq(Um[m], Wm[m]))
        cx.eq('%s ==' % ty, lambda: A.m(ty, 'eq', 'PartialEq'), lambda fn: cx.summ(fn, ['u', 'w'], [U, W]).ret, alleq, 'all components equal', d_eq(ty, d))
        if ty != 'Rotor3':
            cx.eq('%s zero' % ty, lambda: A.m(ty, 'zero', 'Zero'), lambda fn: cx.summ(fn, []).ret, A.of(ty, {}), 'all components zero', d)
            z = TRUE
            for x in Um.values(): z = b_and(z, eq(x, ZERO))
            cx.eq('%s is_zero' % ty, lambda: A.m(ty, 'is_zero', 'Zero'), lambda fn: cx.summ(fn, ['u'], [U]).ret, z, 'exactly when all components are zero', d_sparse(d))
    for ty, us in (('Vector3', (('unit_x', 1), ('unit_y', 2), ('unit_z', 4))), ('Bivector3', (('unit_xy', 3), ('unit_xz', 5), ('unit_yz', 6))), ('Trivector3', (('unit_xyz', 7),)), ('Rotor3', (('identity', 0),))):
        for nm, m in us:
            cx.eq('%s::%s' % (ty, nm), lambda ty=ty, nm=nm: A.m(ty, nm), lambda fn: cx.summ(fn, []).ret, A.of(ty, {m: ONE}), 'the basis element it is named after', dom())
def d_sparse(d):
    def f(rng, h, i):
        v = d(rng, h, i)
        p = rng.choice((0.3, 0.7, 0.9))
        for k in v:
            if k != 'k' and rng.random() < p: v[k] = F(0)
        return v
    return f
def d_eq(ty, d):
    def f(rng, h, i):
        v = d(rng, h, i)
        p = rng.choice((0.3, 0.7, 0.9))
        for k in list(v):
            if k[0] == 'w' and rng.random() < p: v[k] = v['u' + k[1:]]
        return v
    return f

def c05(cx):
    A = Alg(cx)
    for ty in SHAPE:
        U, Um = A.arg(ty, 'u'); W, Wm = A.arg(ty, 'w')
        e, r, q = sym('e'), sym('r'), nat_sym('q')
        base = d_eq(ty, dom(*(names(ty, 'u') + names(ty, 'w'))))
        def d(rng, h, i):
            v = base(rng, h, i); v['e'] = F(rng.randint(0, 5), rng.choice((1, 2, 8))); v['r'] = F(rng.randint(0, 5), rng.choice((1, 3, 8))); v['q'] = F(rng.randint(0, 9)); return v
        for tr, nm, extra in (('AbsDiffEq', 'abs_diff_eq', [e]), ('RelativeEq', 'relative_eq', [e, r]), ('UlpsEq', 'ulps_eq', [e, q])):
            sp = TRUE
            for m in SHAPE[ty]: sp = b_and(sp, as_bool(app(nm, Um[m], Wm[m], *extra)))
            an = ['u', 'w'] + [x.a[0] for x in extra]
            cx.eq('%s %s' % (ty, nm), lambda: A.m(ty, nm, tr), lambda fn: cx.summ(fn, an, [U, W] + extra).ret, sp, 'conjunction over all components, with the tolerances passed', d)
        for tr, nm in (('AbsDiffEq', 'default_epsilon'), ('RelativeEq', 'default_max_relative'), ('UlpsEq', 'default_max_ulps')):
            cx.eq('%s %s' % (ty, nm), lambda: A.m(ty, nm, tr), lambda fn: cx.summ(fn, []).ret, lambda fn: app(nm, string(param_of(cx, fn))), 'the default of the component type', dom())
        same_ = TRUE
        for m in SHAPE[ty]: same_ = b_and(same_, eq(Um[m], Wm[m]))
        cx.eq('%s ==' % ty, lambda: A.m(ty, 'eq', 'PartialEq'), lambda fn: cx.summ(fn, ['u', 'w'], [U, W]).ret, same_, 'exactly when all components are equal', base)
        if cx.p.method(ty, 'ne', 'PartialEq'): cx.eq('%s !=' % ty, lambda: A.m(ty, 'ne', 'PartialEq'), lambda fn: cx.summ(fn, ['u', 'w'], [U, W]).ret, b_not(same_), 'exactly when some components differ', base)
        cx.eq('%s clone' % ty, lambda: A.m(ty, 'clone', 'Clone'), lambda fn: cx.summ(fn, ['u'], [U]).ret, U, 'an equal value', base)
def param_of(cx, fn):
    """name of the component type parameter of the implementing type"""
    for a in cx.p.ty(fn['implself']).get('args', []):
        if cx.p.ty(a)['k'] == 'param': return cx.p.ty(a)['name']
    return 'T'
def nat_sym(n):
    v = sym(n); TM.nat(v); return v

def c06(cx):
    A = Alg(cx)
    U, Um = A.arg('Vector3', 'u'); W, Wm = A.arg('Vector3', 'w')
    n = names('Vector3', 'u') + names('Vector3', 'w')
    dot = ZERO
    for m in SHAPE['Vector3']: dot = add(dot, mul(Um[m], Wm[m]))
    k = div(dot, nsq(Wm))
    pre = nonzero(Wm); both = b_and(nonzero(Um), pre)
    S = lambda fn: cx.summ(fn, ['u', 'w'], [U, W])
    cx.eq('project', lambda: A.m('Vector3', 'project'), lambda fn: S(fn).ret, A.of('Vector3', scale(Wm, k)), 'w (u.w)/(w.w)', dom(*n), pre=pre)
    cx.eq('reflect', lambda: A.m('Vector3', 'reflect'), lambda fn: S(fn).ret, A.of('Vector3', {m: sub(mul(num(2), mul(Wm[m], k)), Um[m]) for m in SHAPE['Vector3']}), '2 w (u.w)/(w.w) - u', dom(*n), pre=pre)
    cosang = div(dot, mul(sqrt(nsq(Um)), sqrt(nsq(Wm))))
    base = dom(*n)
    def da(rng, h, i):
        v = base(rng, h, i)
        if rng.random() < 0.3:
            c = h.number(rng)
            for j in range(3): v['w%d' % j] = v['u%d' % j] * c
        return v
    angle_nf = [app1('acos', fmin(fmax(cosang, num(-1)), ONE)), app1('acos', fmax(fmin(cosang, ONE), num(-1)))]
    def judge(ev, val, x, y):
        # compare the cosines: acos of the clamped value, atan2 and other formulations agree
        if not isinstance(x, Fraction): return None
        import mpmath_lite as ML
        if x < -Fraction(1, 10 ** 20) or x > Fraction(4): return 'the angle %s is outside [0, pi]' % rp(x)
        if abs(ML.cos(x) - y) > Fraction(1, 10 ** 12): return 'the cosine of the returned angle is %s, the property requires u.w/(|u||w|) = %s' % (rp(ML.cos(x)), rp(y))
    judge.identity = False
    cx.eq('angle', lambda: A.m('Vector3', 'angle'), lambda fn: S(fn).ret, cosang, 'cos(angle) = u.w/(|u||w|)', da, pre=both, judge=judge, alts=angle_nf)
    def clamp(ob):
        """every inverse cosine / sine in the summary has its argument clamped to [-1, 1]"""
        t = S(ob.fn).ret
        bad = []
        def walk(x, ctx, seen):
            # x under the list of decided atoms ctx
            if x.op == 'ite':
                walk(x.a[1], ctx + [(x.a[0], True)], seen); walk(x.a[2], ctx + [(x.a[0], False)], seen); return
            for y in TM._kids(x.op, x.a):
                if y.op in ('acos', 'asin'):
                    z = y.a[0]
                    if TM.is_const(z) and abs(TM.cval(z)) <= 1: continue
                    if not (bounded(z, ONE, ctx) and bounded(neg(z), ONE, ctx)): bad.append('`%s` of a value that rounding can push outside [-1, 1] (no clamp on this path)' % y.op)
                else: walk(y, ctx, seen)
        walk(mk('lit', (t,)), [], set())
        return bad
    cx.fact('angle is never NaN', lambda: A.m('Vector3', 'angle'), 'every argument of an inverse cosine is bounded by explicit comparisons with -1 and 1 on its path', clamp)
def bounded(z, c, ctx):
    """z <= c follows from one decided literal of the path"""
    want = le(z, c)
    if want is TRUE: return True
    for at_, v in ctx:
        if TM.restrict(want, at_, v) is TRUE: return True
    return False

def c07(cx):
    n, k = nat_sym('n'), nat_sym('k')
    P = 'math::blade::'
    def num_of(f): return cx.summ(f, ['n', 'k']).ret
    from math import comb, factorial as fac
    M = 2 ** 64
    def fits(nn, kk):
        x = 1
        for i in range(min(kk, nn)): x *= nn - i
        y = fac(kk) if kk < 400 else M
        return x < M and (y < M or kk > nn)
    def d(rng, h, i):
        r = rng.random()
        if r < 0.7: v = (rng.randint(0, 9), rng.randint(0, 9))
        elif r < 0.9: v = (rng.randint(0, 24), rng.randint(0, 24))
        else: v = (rng.choice(h.ints or [3]), rng.choice(h.ints or [3]))
        if not fits(*v): return None
        return {'n': F(v[0]), 'k': F(v[1])}
    spec = app('binomial', n, k)
    funs = {'binomial': lambda ev, a, b: F(comb(int(a), int(b)))}
    i = fresh('nat'); BOUND = TM.BOUND
    BOUND[i] = k; falling = prod_(k, i, sub(n, i))
    j = fresh('nat'); BOUND[j] = k; fct = prod_(k, j, add(j, ONE))
    spec = ite(ilt(n, k), ZERO, app('idiv', falling, fct))
    cx.eq('number_of_basis_blades', lambda: cx.fn(P + 'number_of_basis_blades'), num_of, spec, 'n(n-1)...(n-k+1) / k!, 0 for k > n', d, funs=funs)
    cx.panics('number_of_basis_blades never panics', lambda: cx.fn(P + 'number_of_basis_blades'), lambda f: cx.summ(f, ['n', 'k']), FALSE, 'no panic condition is satisfiable where the intermediate products fit', d)
    # machine words: what is lost by overflow or by a narrowing conversion
    W = lambda f: cx.summ(f, ['n'], words=True)
    two_n = lambda x: app('pow', num(2), x)
    wr = lambda bits: app('wrap', n, ZERO, num((1 << bits) - 1))
    def dim(rng, h, i): return {'n': F(i)} if i < 64 else None
    dim.cases = 64
    cx.eq('total_number_of_basis_blades', lambda: cx.fn(P + 'total_number_of_basis_blades'), lambda f: W(f).ret, two_n(n), '2^n in every space of fewer than 64 dimensions, machine words and conversions included', dim, alts=[two_n(wr(b)) for b in (32,)])
    cx.panics('total_number_of_basis_blades never panics', lambda: cx.fn(P + 'total_number_of_basis_blades'), W, b_not(ilt(n, num(64))), 'no panic, overflow included, for n < 64', dim)
    def d2(rng, h, i):
        r = rng.random()
        k = rng.randint(0, 20) if r < 0.8 else rng.randint(0, 3)
        nn = rng.choice((rng.randint(0, 24), rng.randint(0, 70), rng.randint(0, 2 ** rng.randint(1, 63))))
        return {'n': F(nn), 'k': F(k)} if fits(nn, k) and k <= nn + 2 else None
    def words(f):
        return cx.summ(f, ['n', 'k'], words=True)
    cx.eq('number_of_basis_blades as machine words', lambda: cx.fn(P + 'number_of_basis_blades'), lambda f: words(f).ret, spec, 'the binomial coefficient wherever the intermediate products fit the machine word', d2, funs=funs)
    # the partial products of n(n-1)...(n-k+1) and of k! never exceed the whole, since every factor is at least 1 (k <= n):
    # an overflow of any of them is outside the stated domain
    top = num(M - 1); e1 = fresh('nat'); i1 = fresh('nat'); BOUND[e1] = k; BOUND[i1] = e1
    part = lambda f_, e_: b_and(ile(k, n), exists(k, e1, ilt(top, mul(prod_(e1, i1, f_(i1)), f_(e1)))))
    i2 = fresh('nat'); e2 = fresh('nat'); BOUND[e2] = sub(k, ONE); BOUND[i2] = add(e2, ONE)
    beyond = [part(lambda x: sub(n, x), 0), part(lambda x: add(x, ONE), 0), b_and(ile(k, n), ile(num(M - 1), k)),
        b_and(ile(ONE, k), ile(k, n), exists(sub(k, ONE), e2, ilt(top, mul(prod_(add(e2, ONE), i2, add(i2, ONE)), add(e2, num(2))))))]
    cx.panics('number_of_basis_blades does not overflow', lambda: cx.fn(P + 'number_of_basis_blades'), words, FALSE, 'no overflow where the intermediate products fit the machine word', d2, refute=lambda c: any(c is x for x in beyond))

PROPS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07}
