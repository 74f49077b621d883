"""C08-C17: predicates, constructions, polygons and lines."""
from core import *
from math import isqrt
from algebra import Alg, SHAPE, names, nat_sym, gp, grade
PG = 'geometry::polygon::'; UT = 'geometry::utils::'
SNAP = (F(1, 4), F(1, 2), F(1), F(1, 10))

# ------------------------------------------------------------------ planar vocabulary
def pt(n): return vec2(sym(n + 'x'), sym(n + 'y'))
def X(p): return proj(p, 'x')
def Y(p): return proj(p, 'y')
def vsub(p, q): return vec2(sub(X(p), X(q)), sub(Y(p), Y(q)))
def vadd(p, q): return vec2(add(X(p), X(q)), add(Y(p), Y(q)))
def vmul(p, k): return vec2(mul(X(p), k), mul(Y(p), k))
def cross(u, v): return sub(mul(X(u), Y(v)), mul(Y(u), X(v)))
def vdot(u, v): return add(mul(X(u), X(v)), mul(Y(u), Y(v)))
def dist(p, q): d = vsub(q, p); return sqrt(vdot(d, d))
def area2(a, b, c): return cross(vsub(b, a), vsub(c, a))
def left(a, b, c): return gt(area2(a, b, c), ZERO)
def left_on(a, b, c): return ge(area2(a, b, c), ZERO)
def collinear(a, b, c): return eq(area2(a, b, c), ZERO)
def inbox(x, y, z): return b_or(b_and(le(x, z), le(z, y)), b_and(ge(x, z), ge(z, y)))
def between(a, b, c): return b_and(collinear(a, b, c), inbox(X(a), X(b), X(c)), inbox(Y(a), Y(b), Y(c)))
def between_nf(a, b, c): return b_and(collinear(a, b, c), ite(b_and(eq(X(a), X(b)), eq(Y(a), Y(b))), b_and(eq(X(c), X(a)), eq(Y(c), Y(a))), ite(eq(X(a), X(b)), inbox(Y(a), Y(b), Y(c)), inbox(X(a), X(b), X(c)))))      # one interval decides for a collinear point
def intersect_prop(a, b, c, d):
    n = b_not(b_or(collinear(a, b, c), collinear(a, b, d), collinear(c, d, a), collinear(c, d, b)))
    return b_and(n, b_xor(left(a, b, c), left(a, b, d)), b_xor(left(c, d, a), left(c, d, b)))
def intersect(a, b, c, d, bt=None):
    bt = bt or between
    return b_or(intersect_prop(a, b, c, d), bt(a, b, c), bt(a, b, d), bt(c, d, a), bt(c, d, b))

# ------------------------------------------------------------------ structures
def d_points(*ps, **extra):
    """small configurations, biased towards coincident, collinear, axis-aligned and touching ones"""
    def f(rng, h, i):
        val = {}; pts = []
        q = rng.choice((1, 1, 1, 4))
        R = rng.choice((1, 2, 4))
        far = rng.random() < 0.2
        for n in ps:
            r = rng.random()
            if pts and r < 0.12: p = rng.choice(pts)
            elif len(pts) >= 2 and r < 0.4:
                a, b = rng.sample(pts, 2); t = rng.choice((F(1, 2), F(-1), F(2), F(1, 4), F(3, 2), F(-1, 2), F(1, 3)))
                p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            elif pts and r < 0.55:
                a = rng.choice(pts); k = F(rng.randint(-R * q, R * q), q)
                p = (a[0], k) if rng.random() < 0.5 else (k, a[1])
            elif far: p = (h.number(rng), h.number(rng))
            else: p = (F(rng.randint(-R * q, R * q), q), F(rng.randint(-R * q, R * q), q))
            pts.append(p)
        if rng.random() < 0.5:       # break up the incremental dependence of later points on earlier ones
            rng.shuffle(pts)
        if rng.random() < 0.3:       # absolute thresholds show on small or large configurations
            small = [x for x in h.nums if 0 < x < F(1, 8)]
            k = rng.choice((F(1, 8), F(1, 64), F(1, 1024), F(64))) if not small or rng.random() < 0.6 else rng.choice((rng.choice(small), F(isqrt(int(rng.choice(small) * 10 ** 40)), 10 ** 20))) * rng.choice((F(1, 4), F(1, 2), 1, 2))
            pts = [(x * k, y * k) for x, y in pts]
        for n, p in zip(ps, pts): val[n + 'x'], val[n + 'y'] = p
        for n, k in extra.items(): val[n] = (rng.random() < 0.5) if k == 'bool' else h.number(rng)
        return val
    return f
def d_list(v, lo, *ps, **extra):
    """a list of points, with repeated and near-coincident members"""
    dp = d_points(*ps, **extra)
    def f(rng, h, i):
        val = dp(rng, h, i) if ps or extra else {}
        n = max(lo, h.size(rng, 7))
        out = []
        q = rng.choice((1, 2, 4, 8))
        near = [(val[p + 'x'], val[p + 'y']) for p in ps]
        R = rng.choice((1, 2, 5, 50))
        for k in range(n):
            r = rng.random()
            if out and r < 0.2: p = rng.choice(out)
            elif (out or near) and r < 0.45:
                a = rng.choice(out + near); p = (a[0] + F(rng.randint(-2, 2), 8), a[1] + F(rng.randint(-2, 2), 8))
            else: p = (F(rng.randint(-R * q, R * q), q), F(rng.randint(-R * q, R * q), q))
            out.append(p)
        if n > 1 and rng.random() < (0.5 if n > 6 else 0.15):      # pairwise different points, and one that returns late
            out = [(F(rng.randint(-9, 9)) + 20 * k, F(rng.randint(-9, 9))) for k in range(n)]
            i, j = (0, n - 1) if rng.random() < 0.5 else (rng.randrange(n), rng.randrange(n)); out[max(i, j)] = out[min(i, j)]
        big = [x for x in h.nums if x > 500]
        if big and rng.random() < 0.25:        # thresholds on distances
            k = rng.choice(big) * rng.choice((F(1, 4), 1, 2))
            out = [(x * k, y * k) for x, y in out]
        val[v] = tuple(Rec('Vec2', ('x', 'y'), p) for p in out)
        return val
    return f

def c08(cx):
    a, b, c, d = map(pt, 'abcd')
    def ob(nm, ps, spec, alts=()):
        cx.eq(nm, lambda: cx.fn(PG + nm), lambda f: cx.summ(f, list('abcd')[:len(ps)], ps).ret, spec, 'sign tests of the determinant of the edge vectors', d_points(*'abcd'[:len(ps)]), alts=alts)
    ob('area2', [a, b, c], area2(a, b, c))
    ob('left', [a, b, c], left(a, b, c))
    ob('left_on', [a, b, c], left_on(a, b, c))
    ob('collinear', [a, b, c], collinear(a, b, c))
    ob('between', [a, b, c], between(a, b, c), [between_nf(a, b, c)])
    ob('intersect_prop', [a, b, c, d], intersect_prop(a, b, c, d))
    ob('intersect', [a, b, c, d], intersect(a, b, c, d), [intersect(a, b, c, d, between_nf)])

def seg_params(a, b, c, d):
    u, v, w = vsub(b, a), vsub(d, c), vsub(c, a)
    den = cross(u, v)
    return den, div(cross(w, v), den), div(cross(w, u), den)     # a + t u = c + s v
def c09(cx):
    a, b, c, d = map(pt, 'abcd')
    den, t, s = seg_params(a, b, c, d)
    ok_ = b_and(b_not(eq(den, ZERO)), ge(t, ZERO), le(t, ONE), ge(s, ZERO), le(s, ONE))
    spec = ite(ok_, some(vadd(a, vmul(vsub(b, a), t))), NONE)
    cx.eq('calculate_line_segment_intersection', lambda: cx.fn(UT + 'calculate_line_segment_intersection'), lambda f: cx.summ(f, list('abcd'), [a, b, c, d]).ret, spec,
        'Some(the common point of the carrier lines) iff the determinant is non-zero and both parameters lie in [0, 1]', d_points(*'abcd'))

def c10(cx):
    a, b, c, d, p = map(pt, 'abcdp')
    fn = lambda n: (lambda: cx.fn(UT + n))
    den, t, s = seg_params(a, b, c, d)
    spec = ite(gt(absv(den), EPS), some(vadd(a, vmul(vsub(b, a), t))), NONE)
    cx.eq('calculate_line_intersection', fn('calculate_line_intersection'), lambda f: cx.summ(f, list('abcd'), [a, b, c, d]).ret, spec, 'the common point of the two lines, for every determinant beyond epsilon', d_points(*'abcd'), eps=SNAP)
    ab = vsub(b, a)
    k = div(vdot(vsub(p, a), ab), vdot(ab, ab))
    cx.eq('calculate_perpendicular_point', fn('calculate_perpendicular_point'), lambda f: cx.summ(f, list('abp'), [a, b, p]).ret, vadd(a, vmul(ab, k)), 'orthogonal projection of p on the line ab', d_points(*'abp'), pre=b_not(eq(vdot(ab, ab), ZERO)))
    mid = vec2(div(add(X(a), X(b)), num(2)), div(add(Y(a), Y(b)), num(2)))
    cx.eq('calculate_midpoint', fn('calculate_midpoint'), lambda f: cx.summ(f, list('ab'), [a, b]).ret, mid, 'average of the endpoints', d_points(*'ab'))
    o = sym('o'); L = dist(a, b)
    perp = vec2(div(sub(Y(a), Y(b)), L), div(sub(X(b), X(a)), L))
    def side(sg): return tup(mid, vadd(mid, vmul(perp, mul(num(sg), o))))
    def judge(ev, val, x, y):
        m1, q1 = x.vals; m2, q2 = y.vals
        mirror = Rec('Vec2', ('x', 'y'), [2 * m2.get('x') - q2.get('x'), 2 * m2.get('y') - q2.get('y')])
        if not same(m1, m2): return 'the first point is %s, the midpoint is %s' % (rp(m1), rp(m2))
        if not same(q1, q2) and not same(q1, mirror): return 'the second point is %s, at distance |offset| perpendicular to the segment lie %s and %s' % (rp(q1), rp(q2), rp(mirror))
    cx.eq('calculate_perpendicular_bisector', fn('calculate_perpendicular_bisector'), lambda f: cx.summ(f, ['a', 'b', 'o'], [a, b, o]).ret, side(1), 'midpoint, and midpoint + offset * unit normal', d_points('a', 'b', o='num'), pre=b_not(eq(vdot(ab, ab), ZERO)), judge=judge, alts=[side(-1)])
    u, v = vsub(b, a), vsub(d, c)
    # cos^2 is compared without square roots of squares: |u.v| / (|u||v|)
    cosv = div(vdot(u, v), mul(sqrt(vdot(u, u)), sqrt(vdot(v, v))))
    par = lt(absv(sub(absv(cosv), ONE)), EPS)
    cx.eq('parallel', fn('parallel'), lambda f: cx.summ(f, list('abcd'), [a, b, c, d]).ret, par, 'the absolute cosine of the directions is within epsilon of 1', d_points(*'abcd'), pre=b_and(b_not(eq(vdot(u, u), ZERO)), b_not(eq(vdot(v, v), ZERO))), eps=SNAP)

def c11(cx):
    a, b, c = map(pt, 'abc')
    A, B, C = dist(b, c), dist(a, c), dist(a, b)
    deg = b_or(le(add(A, B), C), le(add(A, C), B), le(add(B, C), A))
    cx.eq('is_degenerate_triangle', lambda: cx.fn(UT + 'is_degenerate_triangle'), lambda f: cx.summ(f, list('abc'), [a, b, c]).ret, deg, 'some side is at least as long as the other two together', d_points(*'abc'))
    per = addn(A, B, C)
    cen = vec2(div(addn(mul(A, X(a)), mul(B, X(b)), mul(C, X(c))), per), div(addn(mul(A, Y(a)), mul(B, Y(b)), mul(C, Y(c))), per))
    p = div(per, num(2))
    area = sqrt(mul(mul(p, sub(p, A)), mul(sub(p, B), sub(p, C))))
    spec = ite(deg, NONE, some(tup(cen, div(area, p))))
    def f(fn): return cx.summ(fn, list('abc'), [a, b, c]).ret
    def judge(ev, val, x, y):
        if x.tag != y.tag: return 'the result is %s, the property requires %s' % (x, y)
        if x.tag == 'Some' and not close(x.vals[0], y.vals[0]): return 'incenter and inradius are %s, the property requires %s' % (rp(x.vals[0]), rp(y.vals[0]))
    cx.eq('calculate_triangle_incenter', lambda: cx.fn(UT + 'calculate_triangle_incenter'), f, spec, 'weighted by the opposite side lengths; area / semiperimeter; None when degenerate', d_points(*'abc'), judge=judge)
def close(x, y, tol=F(1, 10 ** 9)):
    """equality of nested values up to a relative tolerance"""
    if isinstance(x, (Rec, Var)) and isinstance(y, (Rec, Var)): return len(x.vals) == len(y.vals) and all(close(a, b, tol) for a, b in zip(x.vals, y.vals))
    if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(close(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, Fraction) and isinstance(y, Fraction): return abs(x - y) <= tol * (1 + abs(x) + abs(y))
    return same(x, y)

def c12(cx):
    a, b, p, t = map(pt, 'abpt')
    fn = lambda n: (lambda: cx.fn(UT + n))
    cx.eq('close_to', fn('close_to'), lambda f: cx.summ(f, list('ab'), [a, b]).ret, le(dist(a, b), EPS), 'distance at most epsilon', near('a', 'b'), eps=SNAP)
    v = sym('v'); n = length(v)
    dk = lambda k: dist(t, at(v, k))
    i, j = fresh('nat'), fresh('nat'); TM.BOUND[i] = n; TM.BOUND[j] = n
    mn = minv(n, i, dk(i))
    spec = tup(first(n, j, le(dk(j), mn)), mn)
    cx.eq('find_closest_to', fn('find_closest_to'), lambda f: cx.summ(f, ['t', 'v'], [t, v]).ret, spec, 'first index attaining the minimum distance, and that distance', d_list('v', 1, 't'), pre=ilt(ZERO, n))
    # greedy filter against the points kept so far
    s, k = fresh('any'), fresh('nat')
    m = fresh('nat'); TM.BOUND[m] = length(s)
    cl = exists(length(s), m, le(dist(at(v, k), at(s, m)), EPS))
    nf = rec_value([NIL, ZERO], [s, k], [ite(cl, s, cat([s, lit([at(v, k)])])), add(k, ONE)], ilt(k, n), 0)
    def judge(ev, val, x, y):
        src = val['v']; e2 = ev.eps * ev.eps
        d2 = lambda p, q: (p.get('x') - q.get('x')) ** 2 + (p.get('y') - q.get('y')) ** 2
        if not isinstance(x, tuple): return 'no result: %s' % rp(x)
        k = 0
        for q in x:
            while k < len(src) and not same(src[k], q): k += 1
            if k == len(src): return 'the result %s is not a selection of the input in its order' % rp(x)
            k += 1
        for p in src:
            if not any(d2(p, q) <= e2 for q in x): return 'the input point %s is close to no point of the result %s' % (rp(p), rp(x))
        for a_ in range(len(x)):
            for b_ in range(a_):
                if d2(x[a_], x[b_]) <= e2: return 'the result %s contains the coincident points %s and %s' % (rp(x), rp(x[b_]), rp(x[a_]))
    judge.identity = False
    cx.eq('unique_points_among', fn('unique_points_among'), lambda f: cx.summ(f, ['v'], [v]).ret, v, 'every point is covered, no two kept points coincide, order kept', d_list('v', 0), judge=judge, alts=[nf], eps=SNAP)
    e = as_bool(sym('e'))
    on = b_and(lt(absv(sub(add(dist(a, p), dist(p, b)), dist(a, b))), EPS), b_or(e, b_and(gt(dist(a, p), EPS), gt(dist(p, b), EPS))))
    cx.eq('is_on_line_segment', fn('is_on_line_segment'), lambda f: cx.summ(f, ['a', 'b', 'p', 'e'], [a, b, p, e]).ret, on, 'detour shorter than epsilon; endpoints excluded only on request', near('a', 'b', 'p', e='bool'), eps=SNAP)
def near(*ps, **ex):
    base = d_points(*ps, **ex)
    def f(rng, h, i):
        v = base(rng, h, i)
        if rng.random() < 0.6 and len(ps) > 1:
            q = ps[-1]; r = rng.choice(ps[:-1]); k = rng.choice((4, 8, 20))
            v[q + 'x'] = v[r + 'x'] + F(rng.randint(-3, 3), k); v[q + 'y'] = v[r + 'y'] + F(rng.choice((0, 0, rng.randint(-3, 3))), k)
        return v
    return f

# ------------------------------------------------------------------ polygons
class Poly:
    def __init__(s, cx):
        s.cx = cx
        ad = cx.p.adts.get(PG + 'Polygon')
        if not ad: raise Missing('geometry::polygon::Polygon')
        s.path = ad['path']; s.fields = [(f['name'], f['ty'], f['vis']) for f in ad['variants'][0]['fields']]
        vf = [n for n, t, _ in s.fields if is_vec(cx, t)]
        s.vf = vf[0] if len(vf) == 1 else None
        if s.vf is None: raise Skip('the vertex list of Polygon is not identifiable')
    def of(s, seq, tag='p'): return struct(s.path, [n for n, _, _ in s.fields], [seq if n == s.vf else sym('%s.%s' % (tag, n)) for n, _, _ in s.fields])
    def m(s, name): return s.cx.method('Polygon', name)
def is_vec(cx, ti):
    t = cx.p.ty(ti)
    return t['k'] == 'adt' and t['path'].split('::')[-1] in ('Vec', 'VecDeque')
def fan(v):
    n = length(v); i = fresh('nat'); TM.BOUND[i] = sub(n, num(2))
    return sum_(sub(n, num(2)), i, area2(at(v, ZERO), at(v, add(i, ONE)), at(v, add(i, num(2)))))
def shoelace(vs):
    n = len(vs); r = F(0)
    for i in range(n):
        a, b = vs[i], vs[(i + 1) % n]
        r += a.get('x') * b.get('y') - b.get('x') * a.get('y')
    return r

def c13(cx):
    A = Poly(cx)
    v = sym('v'); n = length(v)
    P = A.of(v)
    new = lambda: A.m('new')
    nsum = lambda: cx.summ(new(), ['v'], [v])
    big = ile(num(3), n)
    sa = fan(v)
    okp = A.of(ite(lt(sa, ZERO), rev(v), v))
    code_err = lambda f: [l for l in leaves(nsum().ret) if l.op == 'enum' and l.a[1] == 'Err']
    def spec(f):
        e = code_err(f)
        return ite(big, ok(okp), e[0] if e else err(sym('some error')))
    def judge(ev, val, x, y):
        vs = val['v']
        if len(vs) < 3:
            if x.tag != 'Err': return 'a list of %d vertices is accepted: %s' % (len(vs), rp(x))
            return None
        if x.tag != 'Ok': return 'the vertex list is refused: %s' % rp(x)
        got = x.vals[0].get(A.vf); want = tuple(reversed(vs)) if shoelace(vs) < 0 else vs
        if not same(got, want): return 'the polygon holds %s, the property requires %s' % (rp(got), rp(want))
    cx.eq('Polygon::new', new, lambda f: nsum().ret, spec, 'refuses fewer than 3 vertices; keeps a non-negative signed area, reverses a negative one', d_list('v', 0), judge=judge)
    cx.panics('Polygon::new never panics', new, lambda f: nsum(), FALSE, 'no panic site is reachable', d_list('v', 0))
    pan = lambda nm: cx.panics('Polygon::%s never panics' % nm, lambda: A.m(nm), lambda f: cx.summ(f, ['p'], [P]), b_not(big), 'no panic site is reachable for a polygon', d_list('v', 3))
    cx.eq('Polygon::area', lambda: A.m('area'), lambda f: cx.summ(f, ['p'], [P]).ret, div(absv(sa), num(2)), 'half the absolute signed area', d_list('v', 3), pre=big)
    pan('area')
    i = fresh('nat'); TM.BOUND[i] = n; j = fresh('nat'); TM.BOUND[j] = n
    cen = vec2(div(sum_(n, i, X(at(v, i))), n), div(sum_(n, j, Y(at(v, j))), n))
    cx.eq('Polygon::center', lambda: A.m('center'), lambda f: cx.summ(f, ['p'], [P]).ret, cen, 'average of all vertices', d_list('v', 3), pre=big)
    pan('center')
    cx.eq('Polygon::get_vertices', lambda: A.m('get_vertices'), lambda f: cx.summ(f, ['p'], [P]).ret, v, 'the vertex list', d_list('v', 3), pre=big)
    cx.eq('Polygon::clone', lambda: cx.method('Polygon', 'clone', 'Clone'), lambda f: cx.summ(f, ['p'], [P]).ret, P, 'an equal polygon', d_list('v', 3), pre=big)
    # regular
    m, r = nat_sym('n'), sym('r'); c = pt('c')
    k = fresh('nat'); TM.BOUND[k] = m
    PI = num(F(13176795, 4194304))
    ang = mul(mul(num(2), PI), div(k, m))
    lst = fm(m, k, lit([vec2(add(X(c), mul(r, app1('cos', ang))), add(Y(c), mul(r, app1('sin', ang))))]))
    def reg(f): return cx.summ(f, ['n', 'r', 'c'], [m, r, c]).ret
    def alt(f): return [pay(subst_seq(cx, new(), lst), 'Ok', '0')]
    def judge2(ev, val, x, y):
        got, want = x.get(A.vf), y.get(A.vf)
        if len(got) != len(want): return '%d vertices instead of %d' % (len(got), len(want))
        for q, (g, w) in enumerate(zip(got, want)):
            if not close(g, w, F(1, 10 ** 6)): return 'vertex %d is %s, the property requires %s' % (q, rp(g), rp(w))
    cx.eq('Polygon::regular', lambda: A.m('regular'), reg, A.of(lst), 'the i-th vertex at angle 2 pi i / n on the circle', d_reg, pre=ile(num(3), m), judge=judge2, alts=alt)
    cx.panics('Polygon::regular never panics', lambda: A.m('regular'), lambda f: cx.summ(f, ['n', 'r', 'c'], [m, r, c]), ilt(m, num(3)), 'no panic for at least 3 sides', d_reg)
def subst_seq(cx, fn, lst): return cx.summ(fn, ['v'], [lst]).ret
def d_reg(rng, h, i):
    n = rng.choice([3, 4, 5, 6, 7, 8, 12] + [x for x in h.ints if 3 <= x <= 40])
    return {'n': F(n), 'r': abs(h.number(rng)), 'cx': h.number(rng), 'cy': h.number(rng)}

def c14(cx):
    A = Poly(cx)
    v = sym('v'); n = length(v); P = A.of(v); s = sym('s'); t = pt('t')
    i = fresh('nat'); TM.BOUND[i] = n
    sc = fm(n, i, lit([vmul(at(v, i), s)])); tr = fm(n, i, lit([vadd(at(v, i), t)]))
    cx.eq('Polygon::uniform_scale', lambda: A.m('uniform_scale'), lambda f: cx.summ(f, ['p', 's'], [P, s]).muts['p'], A.of(sc), 'every vertex multiplied by the factor', d_list('v', 3, s='num'))
    cx.eq('Polygon::translate', lambda: A.m('translate'), lambda f: cx.summ(f, ['p', 't'], [P, t]).muts['p'], A.of(tr), 'the vector added to every vertex', d_list('v', 3, 't'))
    for nm, ar in (('uniform_scale', ['p', 's']), ('translate', ['p', 't'])):
        cx.panics('Polygon::%s never panics' % nm, lambda: A.m(nm), lambda f: cx.summ(f, ar, [P, s if ar[1] == 's' else t]), FALSE, 'no panic site is reachable', d_list('v', 3, 't', s='num'))
    def enc(ob):
        bad = []
        for n_, ty, vis in A.fields:
            if vis == 'pub': bad.append('field `%s` of Polygon is public: anyone can write it' % n_)
        for f in cx.p.d['fns']:
            if not f.get('exported') or 'body' not in f or 'inputs' not in f or f['kind'] == 'closure': continue
            out = cx.p.ty(f.get('output', -1))
            it, inner = cx.p.strip(f.get('output', -1))
            takes = [k for k, x in enumerate(f['inputs']) if cx.p.ty(x)['k'] == 'ref' and cx.p.ty(x)['mut'] and cx.p.strip(x)[1].get('path') == A.path]
            if not takes: continue
            if out['k'] == 'ref' and out['mut'] or (out['k'] == 'adt' and 'Mut' in out['path'].split('::')[-1]):
                bad.append('%s hands out mutable access to the polygon' % cx.site(f)); continue
            if f['name'] in ('uniform_scale', 'translate') and f.get('implself') is not None and not f.get('trait'): continue
            try:
                q = cx.summ(f, ['x%d' % k for k in range(len(f['inputs']))], [P if k in takes else None for k in range(len(f['inputs']))])
                for k in takes:
                    fin = q.muts['x%d' % k]
                    if fin is P: continue
                    o2 = Ob(ob.name + '/' + f['name'], f, ob.rule)
                    cx.compare(o2, f, fin, P, d_any(cx, f, takes, 'v'))
                    if o2.status == 'violated': bad.append('%s changes the polygon: %s' % (cx.site(f), o2.detail))
            except Exception as e: cx.notes.append('%s not analysed: %r' % (f['path'], e))
        return bad
    cx.fact('no other public operation changes a polygon', None, 'fields private; no other exported function has a &mut Polygon whose final value differs from the initial one, none returns &mut', enc)
def d_any(cx, f, takes, v):
    base = d_list(v, 3)
    def g(rng, h, i):
        val = base(rng, h, i)
        for k, x in enumerate(f['inputs']):
            if k in takes: continue
            t = cx.p.strip(x)[1]; nm = 'x%d' % k
            if t['k'] in ('uint', 'int'): val[nm] = h.index(rng, len(val[v]))
            elif t['k'] == 'bool': val[nm] = rng.random() < 0.5
            elif t['k'] == 'float': val[nm] = h.number(rng)
            else: val[nm] = Rec('Vec2', ('x', 'y'), (h.number(rng), h.number(rng)))
        return val
    return g

# ------------------------------------------------------------------ diagonals and triangulation
def nexti(k, n): return app('irem', add(k, ONE), n)
def prev_of(i, n): return ite(ile(i, ZERO), sub(n, ONE), sub(i, ONE))
def next_of(i, n): return ite(ile(n, add(i, ONE)), ZERO, add(i, ONE))
def in_cone(v, a, b):
    n = length(v); A, B = at(v, a), at(v, b); A0, A1 = at(v, prev_of(a, n)), at(v, next_of(a, n))
    return ite(left_on(A, A1, A0), b_and(left(A, B, A0), left(B, A, A1)), b_not(b_and(left_on(A, B, A1), left_on(B, A, A0))))
def diagonal(v, i, j, bt=None):
    n = length(v); k = fresh('nat'); TM.BOUND[k] = n
    nk = nexti(k, n)
    hit = exists(n, k, b_and(ine(k, i), ine(nk, i), ine(k, j), ine(nk, j), intersect(at(v, i), at(v, j), at(v, k), at(v, nk), bt)))
    return b_and(ine(i, j), b_not(hit), in_cone(v, i, j), in_cone(v, j, i))
def d_poly(v, *idx):
    base = d_list(v, 3)
    def f(rng, h, i):
        val = {}
        r = rng.random()
        if r < 0.75: val[v] = simple_polygon(rng, 3, rng.choice((6, 9, 12)) if len(idx) == 2 else 9)
        else: val = base(rng, h, i)
        if h.big and rng.random() < 0.06:
            m = rng.choice(h.big)
            if m <= 60: val[v] = ring(m)
        n = len(val[v])
        for k in idx: val[k] = F(rng.randrange(n))
        if len(idx) == 2 and rng.random() < 0.25:
            # an outline that crosses itself: here a diagonal may be met by a single edge, which tells a test that skips it
            for _ in range(30):
                m = rng.randint(4, 8); p = [(F(rng.randint(0, 12)), F(rng.randint(0, 12))) for _ in range(m)]
                one = [(a, b) for a in range(m) for b in range(m) if a != b and py_cone(p, a, b) and py_cone(p, b, a) and
                       sum(not {a, b} & {e, (e + 1) % m} and seg_meet(p[a], p[b], p[e], p[(e + 1) % m]) for e in range(m)) == 1]
                if one:
                    val[v] = tuple(P2(*q) for q in p); val[idx[0]], val[idx[1]] = map(F, rng.choice(one))
                    return val
        if len(idx) == 2 and n <= 12 and rng.random() < 0.7:
            # pairs that see each other inside both cones; where possible, with an edge in between
            p = [(q.get('x'), q.get('y')) for q in val[v]]
            c = [(a, b) for a in range(n) for b in range(n) if a != b and py_cone(p, a, b) and py_cone(p, b, a)]
            x = [(a, b) for a, b in c if any(not {a, b} & {e, (e + 1) % n} and seg_meet(p[a], p[b], p[e], p[(e + 1) % n]) for e in range(n))]
            c = x if x and rng.random() < 0.6 else c
            if c: val[idx[0]], val[idx[1]] = map(F, rng.choice(c))
        return val
    return f
def py_cone(p, i, j):
    o = lambda p, q, r: (q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])
    a, b, a0, a1 = p[i], p[j], p[i - 1], p[(i + 1) % len(p)]
    if o(a, a1, a0) >= 0: return o(a, b, a0) > 0 and o(b, a, a1) > 0
    return not (o(a, b, a1) >= 0 and o(b, a, a0) >= 0)
def P2(x, y): return Rec('Vec2', ('x', 'y'), (F(x), F(y)))
def ring(n):
    """a convex polygon with n vertices (points of a parabola)"""
    return tuple(P2(i, i * i) for i in range(n))
def seg_meet(a, b, c, d):
    o = lambda p, q, r: (q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])
    on = lambda p, q, r: o(p, q, r) == 0 and min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
    if on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b): return True
    return (o(a, b, c) > 0) != (o(a, b, d) > 0) and (o(c, d, a) > 0) != (o(c, d, b) > 0)
def is_simple(p):
    n = len(p)
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        if a == b: return False
        c = p[(i + 2) % n]
        if (b[0] - a[0]) * (c[1] - b[1]) == (b[1] - a[1]) * (c[0] - b[0]) and (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) <= 0: return False
        for j in range(i + 2, n):
            if i == 0 and j == n - 1: continue
            if seg_meet(a, b, p[j], p[(j + 1) % n]): return False
    return True
def simple_polygon(rng, lo=3, hi=9):
    """a simple counter-clockwise polygon on a small grid (2-opt untangling of random points)"""
    for _ in range(50):
        n = rng.randint(lo, hi); R = rng.choice((3, 4, 6, 10))
        pts = list({(rng.randint(0, R), rng.randint(0, R)) for _ in range(n)})
        if len(pts) < 3: continue
        rng.shuffle(pts); n = len(pts)
        for _ in range(60):
            done = True
            for i in range(n):
                for j in range(i + 2, n):
                    if i == 0 and j == n - 1: continue
                    if seg_meet(pts[i], pts[i + 1], pts[j], pts[(j + 1) % n]):
                        pts[i + 1:j + 1] = reversed(pts[i + 1:j + 1]); done = False; break
                if not done: break
            if done: break
        if not is_simple(pts): continue
        s = sum(pts[i][0] * pts[(i + 1) % n][1] - pts[(i + 1) % n][0] * pts[i][1] for i in range(n))
        if s == 0: continue
        if s < 0: pts.reverse()
        k = rng.randrange(n)
        return tuple(P2(*p) for p in pts[k:] + pts[:k])
    return tuple(P2(*p) for p in ((0, 0), (3, 0), (0, 3)))

def diagonal_obligations(cx, A):
    v = sym('v'); P = A.of(v); i, j = nat_sym('i'), nat_sym('j'); n = length(v)
    pre = b_and(ile(num(3), n), ilt(i, n), ilt(j, n))
    cx.eq('Polygon::diagonal', lambda: A.m('diagonal'), lambda f: cx.summ(f, ['p', 'i', 'j'], [P, i, j]).ret, diagonal(v, i, j), 'distinct, meets no edge without a common endpoint, inside both interior cones', d_poly('v', 'i', 'j'), pre=pre, alts=[diagonal(v, i, j, between_nf)])
    cx.panics('Polygon::diagonal never panics', lambda: A.m('diagonal'), lambda f: cx.summ(f, ['p', 'i', 'j'], [P, i, j]), b_not(pre), 'no panic for indices in range', d_poly('v', 'i', 'j'))
def ear_oracle(A, both=False):
    """the diagonal test as the property defines it, on structures"""
    dv, di, dj = sym('$v'), nat_sym('$i'), nat_sym('$j')
    dterm = diagonal(dv, di, dj)
    memo = {}
    def diag(vs, i, j):
        k = (vs, i, j)
        if k not in memo: memo[k] = Ev({'$v': vs, '$i': F(i), '$j': F(j)}, fuel=10 ** 6).ev(dterm, {})
        return memo[k]
    def fdiag(ev, p, i, j):
        vs = p.get(A.vf) if isinstance(p, Rec) else p
        if not (0 <= i < len(vs) and 0 <= j < len(vs)): raise Dead
        return diag(vs, int(i), int(j))
    return (diag, fdiag) if both else fdiag
def c15(cx): diagonal_obligations(cx, Poly(cx))
def c16(cx):
    A = Poly(cx)
    diagonal_obligations(cx, A)
    triangulation(cx, A)
def triangulation(cx, A, only_panics=False):
    v = sym('v'); P = A.of(v); n = length(v)
    D = A.m('diagonal')
    diag, fdiag = ear_oracle(A, True)
    funs = {'diagonal': fdiag}
    def s(f): return cx.summ(f, ['p'], [P], opaque={D['key']: 'diagonal'})
    def key(vs): return tuple(sorted((p.get('x'), p.get('y')) for p in vs))
    def judge(ev, val, x, y):
        vs = val['v']
        if isinstance(x, str): return 'triangulating a polygon gives ' + x
        tri = [t.get(A.vf) if isinstance(t, Rec) else None for t in x]
        simple = is_simple([(p.get('x'), p.get('y')) for p in vs]) and shoelace(vs) > 0
        for t in tri:
            if t is None or (len(t) != 3 and t is not tri[-1]): return 'a returned polygon has %s vertices' % (len(t) if t is not None else '?')
        if not simple: return None
        def go(rest, k):
            if len(rest) == 3: return k == len(tri) - 1 and key(tri[k]) == key(rest)
            if k == len(tri):       # stopped early: legitimate only if no ear is left
                return not any(diag(rest, (q - 1) % len(rest), (q + 1) % len(rest)) for q in range(len(rest)))
            m = len(rest)
            for q in range(m):
                ear = (rest[q - 1], rest[q], rest[(q + 1) % m])
                if key(ear) == key(tri[k]) and diag(rest, (q - 1) % m, (q + 1) % m) and go(rest[:q] + rest[q + 1:], k + 1): return True
            return False
        if not go(vs, 0): return 'the returned triangles %s are not a sequence of ears of the remaining polygon' % rp(tuple(tri))
    judge.identity = False
    def dom_(rng, h, i):
        val = d_poly('v')(rng, h, i)
        if len(val['v']) > 12: return None
        return val
    def clip(ob):
        r = s(ob.fn).ret
        try:
            with Limit(cx.limit): why = clipping(cx, ob, A, r, v, 'diagonal')
        except Timeout as ex: why = str(ex)
        except Exception as ex: why = 'analysis failed: %r' % ex
        three = guard(ieq(n, num(3)), r) is guard(ieq(n, num(3)), lit([P]))
        if why is None and not three: why = 'a triangle is not shown to be returned as it is'
        if why is None: ob.detail = 'shown by induction over the clipping loop: flags of the initial polygon, one ear picked and exactly its vertex removed, its triangle appended, the flags of both neighbours recomputed, the rest appended when three vertices remain'; return
        cx.separate(ob, ob.fn, r, ZERO, dom_, ile(num(3), n), judge, (F(1, 4),), funs, '')
        if ob.status == 'undecided': ob.detail = why + '; ' + ob.detail
    if only_panics:
        try:
            with Limit(cx.limit): clipping(cx, None, A, s(A.m('triangulate')).ret, v, 'diagonal')     # as many flags as vertices
        except Exception: pass
    else: cx.run('Polygon::triangulate', lambda: A.m('triangulate'), 'every step clips one ear of the polygon that remains, until three vertices are left or no ear is', clip)
    cx.panics('Polygon::triangulate never panics', lambda: A.m('triangulate'), lambda f: s(f), ilt(n, num(3)), 'no panic site is reachable for any vertex list', dom_, funs=funs)

def clipping(cx, ob, A, ret, v, dname):
    """Induction over the clipping loop.  From the canonical form of the result: the loop state is (C, E, T), the remaining
    polygon, its ear flags and the triangles so far.  Initially C is the polygon, E its ear statuses and T empty; every
    iteration picks an e with E[e], appends the triangle at e, removes exactly C[e], and leaves in E the status, in the
    remaining polygon, of the two neighbours of e (all others: recomputed, or carried over).  Returns None when all holds,
    otherwise what could not be shown."""
    n = length(v)
    def B(x): return TM.lift('asb', lambda z: ite(as_bool(z), TRUE, FALSE), x)
    ret = guard(ile(num(4), n), ret)
    recs = []; seen = set(); st = [ret]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'rec':
            if len(t.a[0]) == 3 and t.a[0][0] is NIL: recs.append(t)
            continue
        st.extend(TM._kids(t.op, t.a))
        if t.op == 'ite': st += [t.a[0].a[1], t.a[1], t.a[2]]
    if len(recs) != 1: return 'no single clipping loop is recognised'
    ins, vs, nx, cont = TM.rec_open(recs[0])
    ci = [i for i in (1, 2) if ins[i] is v]
    if len(ci) != 1: return 'the loop does not start from the vertices of the polygon'
    ci = ci[0]; ei = 3 - ci; C, E, T = vs[ci], vs[ei], vs[0]
    # the flags and the vertices have the same length, on entry and ever after
    if length(ins[ei]) is not n: return 'there is not one flag per vertex'
    TM.LENREP[E] = C
    nx = [subst(x, {}) for x in nx]; nC, nE, nT = nx[ci], nx[ei], nx[0]
    N = length(C)
    dg = lambda vs_, i, j: B(app(dname, A.of(vs_), i, j))
    prev = lambda i, k: ite(ieq(i, ZERO), sub(k, ONE), sub(i, ONE))
    nxt = lambda i, k: ite(ieq(i, sub(k, ONE)), ZERO, add(i, ONE))
    R = Refuter
    def differ(a, b, pre, bound):
        """boolean a and b agree wherever pre holds"""
        return R(60000).refute(b_and(pre, b_and(b_or(a, b), b_not(b_and(a, b)))))
    k = fresh('nat'); TM.BOUND[k] = n
    if not differ(B(at(ins[ei], k)), dg(v, prev(k, n), nxt(k, n)), ile(num(4), n), n): return 'the initial flags are not shown to be the ear statuses of the polygon'
    # the vertex that is cut: the one missing in the next list
    if length(nC) is not sub(N, ONE) or length(nE) is not sub(N, ONE):
        TM.LENREP.pop(E); return 'an iteration does not remove exactly one vertex and one flag'
    k = fresh('nat'); TM.BOUND[k] = sub(N, ONE)
    x = at(nC, k)
    e = None
    if x.op == 'ite' and x.a[1] is at(C, k) and x.a[2] is at(C, add(k, ONE)) and x.a[0].a[0] == 'le':
        p, c = TM.rpoly(x.a[0].a[1]), x.a[0].a[2]           # k - e <= c
        e = sub(sub(k, TM.rat(p)), num(-c - 1))
    elif x.op == 'ite' and x.a[2] is at(C, k) and x.a[1] is at(C, add(k, ONE)) and x.a[0].a[0] == 'le':
        p, c = TM.rpoly(x.a[0].a[1]), x.a[0].a[2]           # e - k <= c
        e = sub(add(k, TM.rat(p)), num(c))
    if e is None or k in e.free: return 'the removed vertex is not recognised'
    if not (e.op == 'first' or e.op == 'last' or e.op == 'num'): return 'the removed vertex is not recognised'
    picked = B(at(E, e))
    ks = fresh('nat')
    if e.op not in ('first', 'last') or open_(e, ks) is not B(at(E, ks)) or e.a[0] is not N: return 'the removed vertex is not shown to be an ear'
    if not R().refute(b_and(cont, b_not(exists(N, ks, B(at(E, ks)))))): return 'an iteration may run although no ear is left'
    if not R().refute(b_and(cont, ile(N, num(3)))): return 'a triangle may be clipped further'
    if not R().refute(b_and(b_and(b_not(cont), ile(num(4), N)), exists(N, ks, B(at(E, ks))))): return 'the loop may stop although an ear is left'
    l = lit([at(C, prev(e, N)), at(C, e), at(C, nxt(e, N))])
    tri = A.of(ite(lt(fan(l), ZERO), rev(l), l))
    big = ile(num(4), N)
    if guard(big, nT) is not guard(big, cat([T, lit([tri])])): return 'the appended polygon is not shown to be the triangle at the ear'
    M = sub(N, ONE)
    # indices of the two neighbours in the remaining list
    a = ite(ieq(e, ZERO), sub(M, ONE), sub(e, ONE)); b = ite(ieq(e, M), ZERO, e)
    k = fresh('nat'); TM.BOUND[k] = M
    status = lambda i: dg(nC, prev(i, M), nxt(i, M))
    got = B(at(nE, k)); kept = B(at(E, ite(ilt(k, e), k, add(k, ONE))))
    near = b_or(ieq(k, a), ieq(k, b))
    if not all(differ(B(at(nE, i)), status(i), big, M) for i in (a, b)): return 'the flags of the two neighbours are not shown to be recomputed for the remaining polygon'
    far = b_and(big, b_not(near))
    if not differ(got, kept, far, M) and not differ(got, status(k), far, M): return 'the other flags are not shown to be kept or recomputed'
    # the result
    vals = TM.rec_values(ins, vs, nx, cont, range(3))
    RT, RC, RE = vals[0], vals[ci], vals[ei]; TM.LENREP[RE] = RC
    # (after the loop more than three vertices remain only if no ear is left)
    some_ear = exists(length(RC), ks, B(at(RE, ks)))
    want = ite(ile(length(RC), num(3)), cat([RT, lit([A.of(RC)])]), RT)
    alts = [want, ite(some_ear, cat([RT, lit([A.of(RC)])]), want), ite(some_ear, want, RT)]
    if ret not in [guard(ile(num(4), n), w) for w in alts]: return 'the result is not shown to be the triangles, followed by the rest if three vertices remain'
    return None

def c17(cx):
    A = Alg(cx)
    Pt, Pm = A.arg('Vector3', 'p'); Dr, Dm = A.arg('Vector3', 'd'); Xv, Xm = A.arg('Vector3', 'x')
    off = {m: sub(Xm[m], Pm[m]) for m in SHAPE['Vector3']}
    biv = grade(gp(off, Dm), 2)
    spec = TRUE
    for m in SHAPE['Bivector3']: spec = b_and(spec, as_bool(app('ulps_eq', biv.get(m, ZERO), ZERO, EPS, num(4))))
    def act(f):
        line = cx.summ(cx.method('Line', 'new'), ['p', 'd'], [Pt, Dr]).ret
        # every generic tolerance met on the way is the one of f32
        f32 = {mk('app', 'default_' + n, string('T')): v for n, v in (('epsilon', EPS), ('max_relative', EPS), ('max_ulps', num(4)))}
        return TM.replace(cx.summ(f, ['l', 'x'], [line, Xv]).ret, f32)
    nm = names('Vector3', 'p') + names('Vector3', 'd') + names('Vector3', 'x')
    def d(rng, h, i):
        val = {k: h.number(rng) for k in nm}
        r = rng.random()
        if r < 0.7:
            t = rng.choice((F(0), F(1), F(-2), F(1, 2), F(3)))
            for q in range(3): val['x%d' % q] = val['p%d' % q] + t * val['d%d' % q]
            if r < 0.4: val['x%d' % rng.randrange(3)] += rng.choice((F(1), F(-1), F(1, 8), F(1, 64)))
        return val
    cx.eq('Line::contains', lambda: cx.method('Line', 'contains'), act, spec, 'offset ^ direction is zero in all three components, within one f32 epsilon or 4 ULPs', d, eps=SNAP)

PROPS = {'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17}
