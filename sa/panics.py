"""C28: algebra and geometry calls never panic.

Every exported function of the modules math and geometry (methods and trait implementations included) is summarised for
arbitrary arguments of its types; each panic condition of the summary has to be unsatisfiable inside the domain of the
function.  The summaries are over exact reals, so the sites where a NaN operand decides are examined separately (nan.py)."""
from core import *
import geometry, algebra, nan
from geometry import Poly, pt, d_points, d_list, d_poly, is_vec
from algebra import Alg, SHAPE, nat_sym, names as comps
SKIP = ('fmt', 'number_of_basis_blades', 'total_number_of_basis_blades')     # printing; C07

class Args:
    def __init__(s, cx): s.cx = cx; s.alg = Alg(cx); s.poly = Poly(cx); s.line = cx.method('Line', 'new')
    def make(s, nm, ti, selfty=None):
        """(symbolic value, {symbol: kind} for the domain), or None"""
        p = s.cx.p; it, t = p.strip(ti); k = t['k']
        if k == 'adt':
            last = t['path'].split('::')[-1]
            if last in SHAPE: return s.alg.arg(last, nm)[0], {c: 'num' for c in comps(last, nm)}
            if t['path'] == s.poly.path: return s.poly.of(sym(nm)), {nm: 'polygon'}
            if last == 'Line':
                (a, da), (b, db) = s.make(nm + 'p', s.line['inputs'][0]), s.make(nm + 'd', s.line['inputs'][1])
                return s.cx.summ(s.line, ['p', 'd'], [a, b]).ret, {**da, **db}
            if last in ('Vec', 'VecDeque'): return sym(nm), {nm: 'points'}
            if last in ('Matrix', 'TVec', 'Vec2'): return pt(nm), {nm + 'x': 'num', nm + 'y': 'num'}
            return None
        if k in ('slice', 'array'): return sym(nm), {nm: 'points'}
        if k in ('uint', 'int'): return nat_sym(nm), {nm: 'int'}
        if k == 'bool': return as_bool(sym(nm)), {nm: 'bool'}
        if k in ('float', 'param', 'other'): return sym(nm), {nm: 'num'}
        if k == 'tuple' and not t.get('args'): return UNIT, {}
        return None
def dom_of(kinds, lo=0):
    def f(rng, h, i):
        val = {}
        for n, k in kinds.items():
            if k in ('points', 'polygon'): val[n] = (d_poly if k == 'polygon' else lambda v: d_list(v, lo))(n)(rng, h, i)[n]
        lens = [len(v) for v in val.values()] or [4]
        zero = rng.random() < 0.2; line = [n for n, k in kinds.items() if k == 'num']
        for n, k in kinds.items():
            if k == 'int': val[n] = h.index(rng, rng.choice(lens)) if rng.random() < 0.8 else F(rng.choice((0, 1, 2, 3, 7)))
            elif k == 'bool': val[n] = rng.random() < 0.5
            elif k == 'num': val[n] = F(0) if zero and rng.random() < 0.6 else h.number(rng)
        if len(line) >= 4 and rng.random() < 0.5:            # coincident, collinear, axis-aligned and parallel operands
            q = d_points(*[n[:-1] for n in line if n.endswith('x') and n[:-1] + 'y' in line])(rng, h, i) if any(n.endswith('x') and n[:-1] + 'y' in line for n in line) else {}
            for n, x in q.items():
                if n in val: val[n] = x
        return val
    return f
def implemented(cx, f):
    """does any type implement the trait of this provided method?"""
    tr = f['path'].rsplit('::', 1)[0]
    return any(g.get('implself') is not None and g.get('trait') == tr for g in cx.p.d['fns'])
def c28(cx):
    A = Args(cx); P = A.poly; roots = []
    fns = [f for f in cx.p.d['fns'] if f.get('exported') and 'body' in f and 'inputs' in f and f['kind'] != 'closure' and f['path'].lstrip('<').split('::')[0] in ('math', 'geometry')
           and f.get('name') not in SKIP and not (f.get('traitdefault') and not implemented(cx, f))]
    if not fns: raise Missing('the public functions of math and geometry')
    seen = {}
    for f in fns:
        roots.append(f['key'])
        got = []; kinds = {}
        for k, ti in enumerate(f['inputs']):
            r = A.make('xyzwvu'[k] if k < 6 else 'a%d' % k, ti)
            if r is None: got = None; break
            got.append(r[0]); kinds.update(r[1])
        nm = f['path'] + ((' as ' + f['trait'].split('::')[-1]) if f.get('trait') and f['trait'].split('::')[-1] not in f['path'] else '')
        seen[nm] = seen.get(nm, 0) + 1
        if seen[nm] > 1: nm += ' (%d)' % seen[nm]
        if got is None:
            o = Ob(nm, f, 'no panic site is reachable'); o.status = 'undecided'; o.detail = 'an argument type has no symbolic form'; o.site = cx.site(f); cx.obs.append(o); continue
        out = FALSE; lo = 0
        for n, k in kinds.items():
            if k == 'polygon': out = b_or(out, ilt(length(sym(n)), num(3)))
        if f['name'] == 'regular': out = b_or(out, ilt(nat_sym('x'), num(3)))
        if f['name'] == 'find_closest_to': lo = 1; out = b_or(out, ilt(length(sym('y')), ONE))
        if f['name'] == 'diagonal':
            for z in 'yz': out = b_or(out, b_not(ilt(nat_sym(z), length(sym('x')))))
        if f['name'] == 'triangulate' and not f.get('trait') and len(got) == 1 and 'polygon' in kinds.values():
            geometry.triangulation(cx, P, True); continue
        ns = ['xyzwvu'[k] if k < 6 else 'a%d' % k for k in range(len(got))]
        cx.panics(nm, f, lambda f, ns=ns, got=got: cx.summ(f, ns, got), out, 'every panic condition of the summary is unsatisfiable in the domain of the function', dom_of(kinds, lo))
    cx.run('no panic hinges on a NaN operand', None, 'no branch or unwrap reachable from the public algebra and geometry functions panics on the outcome a float comparison has when an operand is NaN', lambda ob: nan.rule(cx, ob, roots))
PROPS = {'C28': c28}
