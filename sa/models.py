"""Transfer functions for the standard library, num_traits, approx and nalgebra(-glm) calls that appear in the crate."""
from fractions import Fraction
from terms import *
import terms as TM
from interp import ilt_raw, red, lift_leaves, mrefs, refine, lits_of

ORD = 'std::cmp::Ordering'
LESS, EQUAL, GREATER = (enum(ORD, v) for v in ('Less', 'Equal', 'Greater'))
CF = 'std::ops::ControlFlow'
PURE_PANIC = ('core::panicking::', 'std::rt::begin_panic', 'std::rt::panic', 'core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed', 'std::process::abort', 'core::slice::index')

def over(op, s, f):
    """reduce f(element) over sequence s, following its structure"""
    x = fresh('any'); b = f(x)
    return over_seq(op, s, x, b)
def seq_map(s, f): return over('fm', s, lambda x: lit([f(x)]))
def seq_filter(s, p): return over('fm', s, lambda x: ite(p(x), lit([x]), NIL))
def seq_exists(s, p): return over('exists', s, lambda x: as_bool(p(x)))
def seq_sum(s, f): return over('sum', s, f)
def index_map(s, f):
    """[f(i, s[i]) | i]"""
    n = length(s); k = fresh('nat'); BOUND[k] = n
    return fm(n, k, lit([f(k, at(s, k))]))
def enum_seq(s):
    if s.op == 'lit': return lit([tup(num(i), x) for i, x in enumerate(s.a[0])])
    return index_map(s, lambda i, x: tup(i, x))
def v2(v): return proj(v, 'x'), proj(v, 'y')
def v2dot(a, b): return add(mul(proj(a, 'x'), proj(b, 'x')), mul(proj(a, 'y'), proj(b, 'y')))
def v2len(a): return sqrt(v2dot(a, a))
def v2sub(a, b): return vec2(sub(proj(a, 'x'), proj(b, 'x')), sub(proj(a, 'y'), proj(b, 'y')))
def v2add(a, b): return vec2(add(proj(a, 'x'), proj(b, 'x')), add(proj(a, 'y'), proj(b, 'y')))
def v2scale(a, s): return vec2(mul(proj(a, 'x'), s), mul(proj(a, 'y'), s))
def v2div(a, s): return vec2(div(proj(a, 'x'), s), div(proj(a, 'y'), s))
def v2dist(a, b): return v2len(v2sub(b, a))
def opt(c, v): return ite(c, some(v), NONE)
def is_num_like(t): return all(l.op in ('num', 'sym', 'proj', 'at', 'pay', 'fresh', 'bv', 'rec', 'app', 'sqrt', 'sin', 'cos', 'acos', 'len', 'sum', 'prod', 'first', 'last', 'min', 'eps', 'huge', 'uninit', 'col') for l in leaves(t))
def lookup(seq, x, keq):
    """(present?, value) of the last association for key x"""
    if seq.op == 'lit':
        c = FALSE; v = DEAD
        for e in seq.a[0]:
            q = keq(proj(e, '0'), x); c = b_or(q, c); v = proj(e, '1') if v is DEAD else ite(q, proj(e, '1'), v)
        return c, v
    if seq.op == 'cat':
        c = FALSE; v = DEAD
        for p in seq.a[0]:
            pc, pv = lookup(p, x, keq)
            if pv is DEAD: continue
            v = pv if v is DEAD else ite(pc, pv, v); c = b_or(pc, c)
        return c, v
    if seq.op == 'ite':
        (c1, v1), (c2, v2_) = lookup(seq.a[1], x, keq), lookup(seq.a[2], x, keq)
        cc = mknode(seq.a[0], TRUE, FALSE)
        return ite(cc, c1, c2), (v2_ if v1 is DEAD else v1 if v2_ is DEAD else ite(cc, v1, v2_))
    if seq.op == 'fm':
        k = fresh(seq.a[2]); n = seq.a[0]; BOUND[k] = n
        b = open_(seq, k)
        c = lift_leaves(b, lambda l: FALSE if l is NIL else TRUE)
        val = undead(lift_leaves(b, lambda l: DEAD if l is NIL else l.a[0][0] if l.op == 'lit' and len(l.a[0]) == 1 else unk('map')))
        if val is DEAD: return FALSE, DEAD
        key, v = proj(val, '0'), proj(val, '1')
        if key is k:
            del BOUND[k]
            return b_and(ilt(x, n), subst(c, {k: x})), subst(v, {k: x})
        hit = b_and(c, keq(key, x))
        return exists(n, k, hit), subst(v, {k: last(n, k, hit)})
    return unk('map lookup'), unk('map lookup')

APPROX = {'approx::AbsDiff': (('AbsDiffEq', 'abs_diff_eq'), ('AbsDiffEq', None)), 'approx::Relative': (('RelativeEq', 'relative_eq'), ('RelativeEq', 'default_max_relative')), 'approx::Ulps': (('UlpsEq', 'ulps_eq'), ('UlpsEq', 'default_max_ulps'))}
class Models:
    def __init__(s, I): s.I = I; s.p = I.p; s.n = 0
    # ------------------------------------------------------------ helpers
    def cmp_int(s, a, b): return ite(ilt(a, b), LESS, ite(ieq(a, b), EQUAL, GREATER))
    def cmp_real(s, a, b): return ite(lt(a, b), LESS, ite(eq(a, b), EQUAL, GREATER))
    def cmp_ty(s, a, b, ti):
        _, t = s.p.strip(ti) if ti is not None and ti >= 0 else (0, {'k': 'param'})
        if t['k'] in ('int', 'uint', 'char'): return s.cmp_int(a, b)
        if t['k'] in ('float', 'param'): return s.cmp_real(a, b)
        if t['k'] == 'tuple':
            r = EQUAL
            for i in range(len(t['args']) - 1, -1, -1):
                c = s.cmp_ty(proj(a, str(i)), proj(b, str(i)), t['args'][i])
                r = lift_leaves(c, lambda l, r=r: r if l is EQUAL else l)
            return r
        return unk('comparison')
    def eq_ty(s, a, b, ti):
        if a is b and a.op not in ('unk',) : 
            pass
        _, t = s.p.strip(ti) if ti is not None and ti >= 0 else (0, {'k': '?'})
        k = t['k']
        if a.op == 'unk' or b.op == 'unk': return unk('eq')
        if k in ('int', 'uint', 'char'): return ieq(a, b)
        if k == 'float': return eq(a, b)
        if k == 'bool': return b_iff(a, b)
        if k == 'tuple': return b_and(*[s.eq_ty(proj(a, str(i)), proj(b, str(i)), x) for i, x in enumerate(t['args'])]) if t['args'] else TRUE
        if k == 'adt':
            last = t['path'].split('::')[-1]
            if last == 'Option':
                both = b_and(isv(a, 'Some'), isv(b, 'Some'))
                if both is FALSE: return b_iff(isv(a, 'Some'), isv(b, 'Some'))
                return ite(isv(a, 'Some'), ite(isv(b, 'Some'), s.eq_ty(pay(a, 'Some', '0'), pay(b, 'Some', '0'), t['args'][0]) if pay(a, 'Some', '0') is not DEAD and pay(b, 'Some', '0') is not DEAD else FALSE, FALSE), b_not(isv(b, 'Some')))
            if last == 'Matrix': return b_and(eq(proj(a, 'x'), proj(b, 'x')), eq(proj(a, 'y'), proj(b, 'y')))
            if last == 'Vec': return s.eq_seq(a, b, t['args'][0])
            if last == 'String': return s.eq_str(a, b)
            ad = s.p.adts.get(t['path'])
            if ad and ad['kind'] == 'enum' and all(not v['fields'] for v in ad['variants']):
                return b_or(*[b_and(isv(a, v['name']), isv(b, v['name'])) for v in ad['variants']])
            if ad and ad['kind'] == 'struct' and ad['local']:
                c = s.p.impls.get(('std::cmp::PartialEq', 'eq', t['path']), [])
                if c and not c[0].get('derived'):
                    r, _, _ = s.I.call_fn(c[0], [a, b], {}); return r
                r = TRUE
                for f in ad['variants'][0]['fields']: r = b_and(r, s.eq_ty(proj(a, f['name']), proj(b, f['name']), f['ty']))
                return r
        if k in ('slice', 'array'): return s.eq_seq(a, b, t['t'])
        if k == 'str': return s.eq_str(a, b)
        if k in ('param', '?', 'other'):
            if is_num_like(a) and is_num_like(b): return eq(a, b)
        return unk('equality at type ' + k)
    def eq_str(s, a, b):
        if a.op == 'str' and b.op == 'str': return boolc(a is b)
        return app('streq', a, b) if a.id <= b.id else app('streq', b, a)
    def eq_seq(s, a, b, ti):
        if a.op == 'lit' and b.op == 'lit':
            if len(a.a[0]) != len(b.a[0]): return FALSE
            return b_and(*[s.eq_ty(x, y, ti) for x, y in zip(a.a[0], b.a[0])]) if a.a[0] else TRUE
        k = fresh('nat'); n = length(a); BOUND[k] = n
        return b_and(ieq(n, length(b)), b_not(exists(n, k, b_not(as_bool(s.eq_ty(at(a, k), at(b, k), ti))))))
    def pure(s, f, args, st):
        """value of a side-effect free closure; (value, panics) or None"""
        r, st2, p = s.I.call_value(f, args, st)
        for k, v in st2.items():
            if k in st and st[k] is not v: return unk('closure with side effects'), p
        return r, p
    def each(s, seq, f, st, out, kind='fm', wrap=None):
        """over `seq` of wrap(x, f(x)); quantified panics are appended to out"""
        n = length(seq); k = fresh('nat'); BOUND[k] = n
        x = fresh('any')
        r, p = s.pure(f, [x], st)
        for c, kd, sp in p: out.append((over_seq('exists', seq, x, as_bool(c)), kd, sp))
        b = wrap(x, r)
        return over_seq(kind, seq, x, b)
    # ------------------------------------------------------------ iterators
    def to_iter(s, v, st):
        if v.op == 'iter' or v.op == 'unk': return v
        if v.op == 'ite':
            a, b = s.to_iter(v.a[1], st), s.to_iter(v.a[2], st)
            if a.op == 'iter' and b.op == 'iter':
                c = mknode(v.a[0], TRUE, FALSE)
                return mk('iter', ite(c, a.a[0], b.a[0]), ite(c, a.a[1], b.a[1]))
            return unk('iterator merge')
        if v.op == 'struct' and v.a[0].endswith('Range'):
            a, b = proj(v, 'start'), proj(v, 'end')
            k = fresh('nat'); n = rcount(a, b); BOUND[k] = n
            return mk('iter', fm(n, k, lit([add(a, k)])), ZERO)
        if v.op == 'struct' and v.a[0] == 'RangeInclusive':
            a, b = proj(v, 'start'), proj(v, 'end')
            k = fresh('nat'); n = rcount(a, add(b, ONE)); BOUND[k] = n
            return mk('iter', fm(n, k, lit([add(a, k)])), ZERO)
        if s.endless(v): return unk('endless iterator')
        if v.op == 'mref':
            t = s.I.deref1(st, v)
            if t.op in ('iter',) or (t.op == 'struct' and 'Range' in t.a[0]): return unk('by-ref iterator')
            n = length(t); k = fresh('nat'); BOUND[k] = n
            return mk('iter', fm(n, k, lit([mk('mref', v.a[0], v.a[1] + (k,))])), ZERO)
        if v.op == 'enum' and v.a[0] == OPT: return mk('iter', lit([v.a[3][0]]) if v.a[1] == 'Some' else NIL, ZERO)
        if v.op == 'map': return unk('hash iteration order')
        return mk('iter', v, ZERO)
    def endless(s, v):
        """element number k of an iterator without end, as a function of k"""
        if v.op != 'struct': return None
        l = v.a[0].split('::')[-1]
        if l == 'RangeFrom': return lambda k: add(proj(v, 'start'), k)
        if l == 'Endless.repeat': return lambda k: proj(v, '0')
        if l == 'Endless.cycle':
            q = proj(v, '0'); return lambda k: at(q, app('irem', k, length(q)))
        if l == 'Endless.number':
            f = s.endless(proj(v, '0')); return lambda k: tup(k, f(k))
        return None
    def seq(s, v, st):
        it = s.to_iter(v, st)
        if it.op == 'unk': return it
        return it.a[0] if it.a[1] is ZERO else skip(it.a[0], it.a[1])
    def mkiter(s, seq): return mk('iter', seq, ZERO) if seq.op != 'unk' else seq
    def drive(s, seq, st, where, init, body):
        """sequential loop over seq with accumulator: body(acc, x, store) -> (acc, store, panics, stop condition)"""
        I = s.I; s.n += 1
        r = ('drv', s.n); n = length(seq)
        st = dict(st); st[r] = struct_raw('drv', ('pos', 'acc'), (ZERO, init))
        def step(store):
            pos = proj(store[r], 'pos'); c = ilt(pos, n)
            ex = [('done', b_not(c), store)]
            if c is FALSE: return ex, []
            acc, st2, pans, stop = body(proj(store[r], 'acc'), at(seq, pos), store)
            st2 = dict(st2); st2[r] = struct_raw('drv', ('pos', 'acc'), (add(pos, ONE), acc))
            lits = lits_of(c)
            st2 = {k: refine(v, lits) for k, v in st2.items()}
            pans = [(b_and(c, x), k, sp) for x, k, sp in pans]
            if stop is not FALSE: ex.append(('done', b_and(c, stop), st2))
            ex.append(('cont', b_and(c, b_not(stop)), st2))
            return ex, pans
        save = I.panics; I.panics = []
        res = I.loop(step, st, where)
        pans = I.panics; I.panics = save
        st2 = I.merge([(c, x) for _, c, x in res])
        acc = proj(st2[r], 'acc')
        st2 = dict(st2); del st2[r]
        return acc, st2, pans
    # ------------------------------------------------------------ dispatch
    def try_model(s, fn, args, st, span, dty):
        path, name, tr = fn['path'], fn['name'], fn.get('trait')
        res = fn.get('res'); rp = fn.get('respath') or path
        local = res in s.p.fns
        if local:
            f = s.p.fns[res]
            if f.get('derived') and name in ('clone', 'eq', 'ne', 'fmt', 'default') or tr and tr.split('::')[-1] in ('Fn', 'FnMut', 'FnOnce'): pass
            else: return None
        elif fn.get('local') and not tr: return None
        I = s.I
        V = lambda i: I.read_ref(st, args[i])
        pans = []
        def ret(v, st2=None): return v, (st if st2 is None else st2), pans
        if any(p in path for p in PURE_PANIC) or rp.startswith(PURE_PANIC):
            return DEAD, st, [(TRUE, 'panic', span)]
        if path.startswith(('core::fmt::', 'std::fmt::', 'alloc::fmt::')) or path.startswith(('std::io::_print', 'std::io::_eprint')): 
            return ret(UNIT if '_print' in path or '_eprint' in path else mk('app', 'fmt'))
        if name == 'format' and 'fmt' in path: return ret(mk('app', 'fmt'))
        h = getattr(s, 'm_' + name, None)
        if tr:
            tl = tr.split('::')[-1]
            g = getattr(s, 't_' + tl, None)
            if g is not None:
                r = g(fn, name, args, st, span, dty, pans, V)
                if r is not None: return r if isinstance(r, tuple) else (r, st, pans)
        g = None
        for key, meth in (('HashMap', 'c_map'), ('BTreeMap', 'c_map'), ('HashSet', 'c_set'), ('BTreeSet', 'c_set'), ('nalgebra', 'c_glm'), ('std::option::Option', 'c_option'), ('std::result::Result', 'c_result'), ('core::f32', 'c_float'), ('std::f32', 'c_float'), ('core::f64', 'c_float'), ('std::f64', 'c_float'), ('core::num', 'c_int'), ('std::num', 'c_int'), ('VecDeque', 'c_deque'), ('std::vec::Vec', 'c_vec'), ('core::slice', 'c_vec'), ('std::slice', 'c_vec'), ('alloc::slice', 'c_vec'), ('core::array', 'c_vec'), ('std::boxed', 'c_box'), ('std::cmp', 'c_cmp'), ('std::mem', 'c_mem'), ('core::mem', 'c_mem'), ('core::bool', 'c_bool'), ('std::ops::Range', 'c_range'), ('core::str', 'c_str'), ('std::string', 'c_str'), ('alloc::str', 'c_str'), ('std::iter', 'c_iter'), ('std::cell', 'c_cell'), ('approx::', 'c_approx')):
            if key in path:
                g = getattr(s, meth, None)
                if g is None: continue
                r = g(fn, name, args, st, span, dty, pans, V)
                if r is not None: return r if isinstance(r, tuple) else (r, st, pans)
        return None
    # ------------------------------------------------------------ traits: operators
    def opnd_kind(s, fn, i, v):
        a = fn.get('args') or []
        if i < len(a):
            _, t = s.p.strip(a[i])
            if t['k'] == 'adt' and t['path'].split('::')[-1] == 'Matrix': return 'vec'
            if t['k'] == 'uint': return 'uint'
            if t['k'] == 'int': return 'int'
            if t['k'] == 'bool': return 'bool'
            if t['k'] == 'adt': return 'adt'
        if v.op == 'struct' and v.a[0] == 'Vec2': return 'vec'
        return 'num'
    def arith(s, fn, op, a, b, pans, span):
        ka, kb = s.opnd_kind(fn, 0, a), s.opnd_kind(fn, 1, b) if len(fn.get('args') or []) > 1 else s.opnd_kind(fn, 0, b)
        if 'adt' in (ka, kb): return None
        if a.op == 'unk': return a
        if b.op == 'unk': return b
        if ka == 'bool':
            m = {'bitand': b_and, 'bitor': b_or, 'bitxor': b_xor}
            return m[op](as_bool(a), as_bool(b)) if op in m else None
        if ka == 'vec' and kb == 'vec':
            if op == 'add': return v2add(a, b)
            if op == 'sub': return v2sub(a, b)
            return unk('vector product')
        if ka == 'vec':
            if op == 'mul': return v2scale(a, b)
            if op == 'div': return v2div(a, b)
            return unk('vector op')
        if kb == 'vec':
            if op == 'mul': return v2scale(b, a)
            return unk('vector op')
        if not is_num_like(a) or not is_num_like(b): return None
        if op == 'sub' and ka == 'uint': pans.append((ilt(a, b), 'overflow:Sub', span))
        if op == 'div' and ka in ('int', 'uint'): return app('idiv', a, b)
        if op == 'rem': return app('irem' if ka in ('int', 'uint') else 'frem', a, b)
        m = {'add': add, 'sub': sub, 'mul': mul, 'div': div}
        return m[op](a, b) if op in m else None
    def _bin(s, fn, name, args, st, span, dty, pans, V):
        return s.arith(fn, name, V(0), V(1), pans, span)
    t_Add = t_Sub = t_Mul = t_Div = t_Rem = t_BitAnd = t_BitOr = t_BitXor = _bin
    def _binassign(s, fn, name, args, st, span, dty, pans, V):
        r = s.arith(fn, name[:-7], V(0), V(1), pans, span)
        if r is None: return None
        return UNIT, s.I.write_ref(st, args[0], r), pans
    t_AddAssign = t_SubAssign = t_MulAssign = t_DivAssign = t_BitAndAssign = t_BitOrAssign = t_BitXorAssign = _binassign
    def t_Neg(s, fn, name, args, st, span, dty, pans, V):
        v = V(0)
        if s.opnd_kind(fn, 0, v) == 'vec': return vec2(neg(proj(v, 'x')), neg(proj(v, 'y')))
        return neg(v) if is_num_like(v) else None
    def t_Not(s, fn, name, args, st, span, dty, pans, V): return b_not(V(0))
    def t_Zero(s, fn, name, args, st, span, dty, pans, V):
        if name == 'zero':
            _, t = s.p.strip(fn['args'][0]) if fn.get('args') else (0, {'k': 'param'})
            if t['k'] == 'adt': return vec2(ZERO, ZERO) if t['path'].endswith('Matrix') else None
            return ZERO
        if name == 'is_zero':
            v = V(0)
            return eq(v, ZERO) if is_num_like(v) else None
        if name == 'set_zero': return UNIT, s.I.write_ref(st, args[0], ZERO), pans
    def t_One(s, fn, name, args, st, span, dty, pans, V):
        if name == 'one': return ONE
        if name == 'is_one': return eq(V(0), ONE)
    def t_NumCast(s, fn, name, args, st, span, dty, pans, V):
        if name == 'from': return some(V(0))
    def t_FromPrimitive(s, fn, name, args, st, span, dty, pans, V): return some(V(0))
    def t_ToPrimitive(s, fn, name, args, st, span, dty, pans, V): return some(V(0))
    def t_AsPrimitive(s, fn, name, args, st, span, dty, pans, V): return V(0)
    def t_Float(s, fn, name, args, st, span, dty, pans, V): return s.c_float(fn, name, args, st, span, dty, pans, V)
    t_Real = t_FloatCore = t_Signed = t_ComplexField = t_RealField = t_Float
    def t_FloatConst(s, fn, name, args, st, span, dty, pans, V): 
        import math
        c = {'PI': math.pi, 'TAU': 2 * math.pi, 'FRAC_PI_2': math.pi / 2}
        return num(Fraction(c[name])) if name in c else None
    def t_Clone(s, fn, name, args, st, span, dty, pans, V):
        if name == 'clone': return V(0)
        if name == 'clone_from': return UNIT, s.I.write_ref(st, args[0], V(1)), pans
    def t_ToOwned(s, fn, name, args, st, span, dty, pans, V): return V(0)
    def t_Borrow(s, fn, name, args, st, span, dty, pans, V): return args[0]
    t_AsRef = t_Borrow
    def t_AsMut(s, fn, name, args, st, span, dty, pans, V): return args[0]
    t_BorrowMut = t_AsMut
    def t_Deref(s, fn, name, args, st, span, dty, pans, V): return args[0] if args[0].op != 'mref' else V(0)
    def t_DerefMut(s, fn, name, args, st, span, dty, pans, V): return args[0]
    def t_From(s, fn, name, args, st, span, dty, pans, V):
        if fn.get('res') in s.p.fns: return None
        return V(0) if args[0].op != 'mref' else args[0]
    t_Into = t_From
    def t_TryFrom(s, fn, name, args, st, span, dty, pans, V):
        tys = [s.p.ty(x) for x in (fn.get('args') or [])[:2]]
        if len(tys) == 2 and all(t['k'] in ('int', 'uint') for t in tys) and V(0).op != 'unk':
            if name == 'try_into': tys.reverse()
            L = s.I.lims(tys[0]); M = s.I.lims(tys[1])
            if L and not (M and L[0] <= M[0] and M[1] <= L[1]):
                v = V(0); fit = ile(v, num(L[1]))
                if tys[1]['k'] == 'int': fit = b_and(fit, ile(num(L[0]), v))
                return ite(fit, ok(v), err(mk('app', 'out of range')))
        return ok(V(0))
    t_TryInto = t_TryFrom
    def t_ToString(s, fn, name, args, st, span, dty, pans, V): return V(0) if V(0).op == 'str' else mk('app', 'fmt')
    def t_Default(s, fn, name, args, st, span, dty, pans, V):
        return s.default(fn['args'][0] if fn.get('args') else -1)
    def default(s, ti):
        t = s.p.ty(ti); k = t['k']
        if k in ('int', 'uint', 'float'): return ZERO
        if k == 'bool': return FALSE
        if k == 'tuple': return tup(*[s.default(x) for x in t['args']]) if t['args'] else UNIT
        if k == 'param': return mk('app', 'default', string(t['name']))
        if k == 'adt':
            l = t['path'].split('::')[-1]
            if l == 'Vec': return NIL
            if l == 'Option': return NONE
            if l == 'String': return string('')
            if l in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'): return mk('map', NIL)
            if t['path'] in APPROX and t.get('args'): return struct(t['path'], ['epsilon', 'other'], [s.approx_default(t['args'][0], 'AbsDiffEq', 'default_epsilon'), s.approx_default(t['args'][0], *APPROX[t['path']][1])])
            a = s.p.adts.get(t['path'])
            if a and a['local'] and a['kind'] == 'struct':
                c = s.p.impls.get(('std::default::Default', 'default', t['path']), [])
                if c and not c[0].get('derived'):
                    r, _, _ = s.I.call_fn(c[0], [], {}); return r
                return struct(t['path'], [f['name'] for f in a['variants'][0]['fields']], [s.default(f['ty']) for f in a['variants'][0]['fields']])
        return unk('default')
    def t_PartialEq(s, fn, name, args, st, span, dty, pans, V):
        ti = fn['args'][0] if fn.get('args') else -1
        _, t = s.p.strip(ti) if ti >= 0 else (0, {'k': '?'})
        c = as_bool(s.eq_ty(V(0), V(1), ti))
        return c if name == 'eq' else b_not(c)
    t_Eq = t_PartialEq
    def t_PartialOrd(s, fn, name, args, st, span, dty, pans, V):
        ti = fn['args'][0] if fn.get('args') else -1
        a, b = V(0), V(1)
        if a.op == 'unk' or b.op == 'unk': return unk('cmp')
        if name in ('partial_cmp', 'cmp'):
            c = s.cmp_ty(a, b, ti)
            if c.op == 'unk': return c
            return lift_leaves(c, some) if name == 'partial_cmp' else c
        _, t = s.p.strip(ti) if ti >= 0 else (0, {'k': 'param'})
        if t['k'] in ('float', 'param', 'uint', 'int'):
            L, E = (lt, le) if t['k'] in ('float', 'param') else (ilt, ile)
            if name == 'lt': return L(a, b)
            if name == 'le': return E(a, b)
            if name == 'gt': return L(b, a)
            if name == 'ge': return E(b, a)
            mn, mx = (fmin, fmax) if L is lt else (imin, imax)
            if name == 'min': return mn(a, b)
            if name == 'max': return mx(a, b)
            if name == 'clamp': return mn(mx(a, b), V(2))
        if t['k'] == 'tuple':
            c = s.cmp_ty(a, b, ti)
            if c.op == 'unk': return c
            w = {'lt': (LESS,), 'le': (LESS, EQUAL), 'gt': (GREATER,), 'ge': (GREATER, EQUAL)}.get(name)
            if w: return lift_leaves(c, lambda l: boolc(l in w))
        return unk('cmp')
    t_Ord = t_PartialOrd
    # approx
    def t_AbsDiffEq(s, fn, name, args, st, span, dty, pans, V):
        if any(V(i).op == 'struct' for i in range(min(2, len(args)))):
            if name.endswith('_ne'):     # provided by the trait as the negation of the type's own `_eq`
                own = [f for t in ('AbsDiffEq', 'RelativeEq', 'UlpsEq') for i in range(min(2, len(args))) if V(i).op == 'struct' for f in s.p.impls.get(('approx::' + t, name[:-2] + 'eq', V(i).a[0]), [])]
                if own and fn.get('path', '').startswith('approx::'):
                    r, st2, ps = s.I.call_fn(own[0], args, st)
                    return b_not(as_bool(r)), st2, ps
            return None
        if name.startswith('default_') and s.tyname(fn) == 'f32': return num(4) if name == 'default_max_ulps' else EPS
        if name.startswith('default_'): return mk('app', name, string(s.tyname(fn)))
        if name == 'abs_diff_ne': return b_not(as_bool(app('abs_diff_eq', V(0), V(1), V(2))))
        if name in ('relative_ne', 'ulps_ne'): return b_not(as_bool(app(name[:-2] + 'eq', *[V(i) for i in range(4)])))
        return as_bool(app(name, *[V(i) for i in range(len(args))]))
    t_RelativeEq = t_UlpsEq = t_AbsDiffEq
    def approx_default(s, ti, tr, name):
        t = s.p.ty(ti)
        if name is None: return UNIT
        if t['k'] == 'adt':
            c = s.p.impls.get(('approx::AbsDiffEq' if tr == 'AbsDiffEq' else 'approx::' + tr, name, t['path']), [])
            return s.I.call_fn(c[0], [], {})[0] if c else unk(name)
        if t.get('name') == 'f32': return num(4) if name == 'default_max_ulps' else EPS
        return mk('app', name, string(t.get('name', '?')))
    # the builders behind abs_diff_eq!, relative_eq! and ulps_eq!
    def c_approx(s, fn, name, args, st, span, dty, pans, V):
        v = V(0)
        if v.op != 'struct' or v.a[0] not in APPROX: return None
        (tr, own), (_, _) = APPROX[v.a[0]]
        eps, oth = proj(v, 'epsilon'), proj(v, 'other')
        if name == 'epsilon': return struct(v.a[0], ['epsilon', 'other'], [V(1), oth])
        if name in ('max_ulps', 'max_relative'): return struct(v.a[0], ['epsilon', 'other'], [eps, V(1)])
        if name not in ('eq', 'ne'): return None
        rest = [eps] if oth is UNIT else [eps, oth]
        if V(1).op == 'struct':
            c = s.p.impls.get(('approx::' + tr, own, V(1).a[0]), [])
            if not c: return None
            r, st, ps = s.I.call_fn(c[0], [args[1], args[2]] + rest, st); pans += ps
        else: r = app(own, V(1), V(2), *rest)
        r = as_bool(r)
        return (b_not(r) if name == 'ne' else r), st, pans
    def tyname(s, fn):
        _, t = s.p.strip(fn['args'][0]) if fn.get('args') else (0, {'k': '?'})
        return t.get('name', t.get('path', t['k']))
    # ------------------------------------------------------------ indexing
    def t_Index(s, fn, name, args, st, span, dty, pans, V):
        c = args[0]; i = V(1)
        base = V(0)
        if base.op == 'map':
            keq = s.keyeq(fn)
            p, v = lookup(base.a[0], i, keq)
            pans.append((b_not(p), 'missing key', span))
            return v
        vec = s.opnd_kind(fn, 0, base) == 'vec'
        if vec:
            if i.op == 'struct' and i.a[0] == '()': i = proj(i, '0')
            r = ite(ieq(i, ZERO), proj(base, 'x'), proj(base, 'y'))
            if name == 'index_mut':
                if not is_const(i): return unk('vector index')
                from interp import ext
                return ext(c, 'Vec2#' + ('x' if cval(i) == 0 else 'y'))
            return r
        if i.op == 'struct' and 'Range' in i.a[0]:
            lo, hi = s.bounds(i, length(base))
            pans.append((b_or(ilt(length(base), hi), ilt(hi, lo)), 'slice', span))
            if name == 'index_mut' and not (lo is ZERO and hi is length(base)):
                from interp import ext
                return ext(c, app('slice', lo, hi))
            return c if name == 'index_mut' else skip(take(base, hi), lo)
        pans.append((b_not(ilt(i, length(base))), 'bounds', span))
        if name == 'index_mut':
            from interp import ext
            return ext(c, i)
        return at(base, i)
    t_IndexMut = t_Index
    def bounds(s, r, n):
        nm = r.a[0].split('::')[-1]
        lo = proj(r, 'start') if 'start' in r.a[1] else ZERO
        hi = proj(r, 'end') if 'end' in r.a[1] else n
        if nm in ('RangeInclusive', 'RangeToInclusive'): hi = add(hi, ONE)
        return lo, hi
    def keyeq(s, fn):
        for a in fn.get('args') or []:
            _, t = s.p.strip(a)
            if t['k'] == 'adt' and t['path'].split('::')[-1] in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
                a = t['args'][0]
            return lambda x, y, a=a: as_bool(s.eq_ty(x, y, a))
        return lambda x, y: ieq(x, y)
    # ------------------------------------------------------------ Try
    def t_Try(s, fn, name, args, st, span, dty, pans, V):
        v = V(0)
        if name == 'branch':
            ti = fn['args'][0]; _, t = s.p.strip(ti)
            if t['path'].endswith('Option'):
                return ite(isv(v, 'Some'), enum(CF, 'Continue', ('0',), (pay(v, 'Some', '0'),)), enum(CF, 'Break', ('0',), (NONE,)))
            if t['path'].endswith('Result'):
                pe = pay(v, 'Err', '0'); po = pay(v, 'Ok', '0')
                return ite(isv(v, 'Ok'), enum(CF, 'Continue', ('0',), (po,)), enum(CF, 'Break', ('0',), (err(pe),)))
        if name == 'from_output':
            ti = fn['args'][0]; _, t = s.p.strip(ti)
            return some(v) if t['path'].endswith('Option') else ok(v)
    def t_FromResidual(s, fn, name, args, st, span, dty, pans, V): return V(0)
    # ------------------------------------------------------------ calls of closures
    def t_FnOnce(s, fn, name, args, st, span, dty, pans, V):
        a = args[1]
        vals = list(a.a[2]) if a.op == 'struct' else [a]
        f = args[0]
        if f.op == 'mref': f = s.I.read_ref(st, f)
        r, st2, p = s.I.call_value(f, vals, st)
        pans += p
        return r, st2, pans
    t_Fn = t_FnMut = t_FnOnce
    # ------------------------------------------------------------ iterators
    def t_IntoIterator(s, fn, name, args, st, span, dty, pans, V):
        v = args[0]
        if v.op == 'struct' and 'Range' in v.a[0] and v.a[0] != 'RangeInclusive' or s.endless(v): return v
        return s.to_iter(v, st)
    def t_FromIterator(s, fn, name, args, st, span, dty, pans, V):
        return s.collect(s.seq(args[0], st), dty)
    def t_Extend(s, fn, name, args, st, span, dty, pans, V):
        base = V(0); q = s.seq(args[1], st)
        if name != 'extend': return None
        if base.op == 'map': return UNIT, s.I.write_ref(st, args[0], mk('map', cat([base.a[0], q]))), pans
        return UNIT, s.I.write_ref(st, args[0], cat([base, q]) if q.op != 'unk' else q), pans
    def collect(s, q, dty):
        if q.op == 'unk': return q
        t = s.p.ty(dty)
        if t['k'] == 'adt':
            l = t['path'].split('::')[-1]
            if l in ('HashMap', 'BTreeMap'): return mk('map', q)
            if l in ('HashSet', 'BTreeSet'): return mk('map', seq_map(q, lambda x: tup(x, UNIT)))
            if l in ('Vec', 'VecDeque', 'Box', 'Rc', 'Arc'): return q
            return unk('collect into ' + l)
        return q
    def t_DoubleEndedIterator(s, fn, name, args, st, span, dty, pans, V):
        if name == 'rev': return s.mkiter(rev(s.seq(args[0], st)))
        return s.t_Iterator(fn, name, args, st, span, dty, pans, V)
    def t_ExactSizeIterator(s, fn, name, args, st, span, dty, pans, V):
        if name == 'len': return length(s.seq(V(0), st))
    def t_Iterator(s, fn, name, args, st, span, dty, pans, V):
        I = s.I
        if name == 'next':
            it = V(0)
            if it.op == 'ite' : it = s.to_iter(it, st)
            if it.op == 'struct' and it.a[0].endswith('Range'):
                a, b = proj(it, 'start'), proj(it, 'end'); c = ilt(a, b)
                new = struct(it.a[0], it.a[1], [ite(c, add(a, ONE), a) if n == 'start' else x for n, x in zip(it.a[1], it.a[2])])
                return opt(c, a), I.write_ref(st, args[0], new), pans
            if it.op == 'struct' and it.a[0].endswith('RangeFrom'):
                a = proj(it, 'start')
                return some(a), I.write_ref(st, args[0], struct(it.a[0], it.a[1], [add(a, ONE)])), pans
            if it.op == 'iter':
                q, p = it.a; c = ilt(p, length(q)) if q.op != 'unk' else q
                if c.op == 'unk': return unk('next'), I.write_ref(st, args[0], unk('next')), pans
                return opt(c, at(q, p)), I.write_ref(st, args[0], mk('iter', q, ite(c, add(p, ONE), p))), pans
            return unk('next of ' + it.op), I.write_ref(st, args[0], unk('next')), pans
        it = args[0]
        byref = it.op == 'mref' and (I.deref1(st, it).op == 'iter' or I.deref1(st, it).op == 'struct')
        if byref: it0 = it; it = I.deref1(st, it)
        el = s.endless(it)
        if el and not byref:
            if name == 'zip':
                r = s.seq(args[1], st); n = length(r); k = fresh('nat')
                if r.op == 'unk': return r
                BOUND[k] = n
                return s.mkiter(fm(n, k, lit([tup(el(k), at(r, k))])))
            if name == 'take':
                n = V(1); k = fresh('nat'); BOUND[k] = n
                if it.a[0].endswith('cycle'): n = ite(eq(length(proj(it, '0')), ZERO), ZERO, n)
                return s.mkiter(fm(n, k, lit([el(k)])))
            if name in ('fuse', 'cloned', 'copied', 'inspect'): return it
            if name == 'enumerate': return struct_raw('Endless.number', ('0',), (it,))
        q = s.seq(it, st)
        if q.op == 'unk': return q
        if name == 'cycle' and not byref: return struct_raw('Endless.cycle', ('0',), (q,))
        def done(v):
            if byref: return v, I.write_ref(st, it0, unk('partially consumed iterator')), pans
            return v, st, pans
        if name in ('cloned', 'copied'):
            if any_mref(q): return done(unk('cloned &mut'))
            return done(s.mkiter(q))
        if name in ('by_ref',): return args[0]
        if name in ('iter', 'into_iter', 'fuse', 'peekable') and name != 'peekable': return done(s.mkiter(q))
        if name == 'enumerate': return done(s.mkiter(enum_seq(q)))
        if name == 'rev': return done(s.mkiter(rev(q)))
        if name == 'zip':
            e2 = s.endless(args[1])
            if e2:
                k = fresh('nat'); BOUND[k] = length(q)
                return done(s.mkiter(fm(length(q), k, lit([tup(at(q, k), e2(k))]))))
            r = s.seq(args[1], st)
            if r.op == 'unk': return done(r)
            n = imin(length(q), length(r)); k = fresh('nat'); BOUND[k] = n
            return done(s.mkiter(fm(n, k, lit([tup(at(q, k), at(r, k))]))))
        if name == 'chain':
            r = s.seq(args[1], st)
            return done(s.mkiter(cat([q, r])) if r.op != 'unk' else r)
        if name == 'skip': return done(s.mkiter(skip(q, V(1))))
        if name == 'take': return done(s.mkiter(take(q, imin(V(1), length(q)))))
        if name == 'step_by':
            d = V(1)
            if is_const(d) and cval(d) == 1: return done(s.mkiter(q))
            n = app('idiv', add(length(q), sub(d, ONE)), d); k = fresh('nat'); BOUND[k] = n
            return done(s.mkiter(fm(n, k, lit([at(q, mul(k, d))]))))
        if name == 'map': return done(s.mkiter(s.each(q, args[1], st, pans, 'fm', lambda x, r: lit([r]))))
        if name == 'filter': return done(s.mkiter(s.each(q, args[1], st, pans, 'fm', lambda x, r: ite(as_bool(r), lit([x]), NIL))))
        if name == 'filter_map': return done(s.mkiter(s.each(q, args[1], st, pans, 'fm', lambda x, r: opt_seq(r))))
        if name in ('flat_map',): return done(s.mkiter(s.each(q, args[1], st, pans, 'fm', lambda x, r: s.seq(r, st))))
        if name == 'flatten': return done(s.mkiter(over('fm', q, lambda x: s.flat(x, st, fn))))
        if name == 'inspect': return done(s.mkiter(q))
        if name == 'collect': return done(s.collect(q, dty))
        if name == 'count': return done(length(q))
        if name == 'sum':
            t = s.p.ty(dty)
            if t['k'] == 'adt': 
                if t['path'].endswith('Matrix'): return done(vec2(seq_sum(q, lambda x: proj(x, 'x')), seq_sum(q, lambda x: proj(x, 'y'))))
                return done(unk('sum'))
            return done(seq_sum(q, lambda x: x))
        if name == 'product':
            n = length(q); k = fresh('nat'); BOUND[k] = n
            return done(prod_(n, k, at(q, k)))
        if name == 'any': return done(s.each(q, args[1], st, pans, 'exists', lambda x, r: as_bool(r)))
        if name == 'all': return done(b_not(s.each(q, args[1], st, pans, 'exists', lambda x, r: b_not(as_bool(r)))))
        n = length(q)
        if name in ('position', 'find', 'find_map', 'take_while', 'skip_while', 'rposition', 'map_while'):
            k = fresh('nat'); BOUND[k] = n
            r, p = s.pure(args[1], [at(q, k)], st)
            if r.op == 'unk': return done(r)
            if name in ('find_map', 'map_while'): c = isv(r, 'Some')
            else: c = as_bool(r)
            if name in ('take_while', 'skip_while', 'map_while'): c = b_not(c)
            e = exists(n, k, c); f = (last if name == 'rposition' else first)(n, k, c)
            for pc, kd, sp in p: pans.append((exists(ite(e, add(f, ONE), n), k, pc), kd, sp))
            if name in ('position', 'rposition'): return done(opt(e, f))
            if name == 'find': return done(opt(e, at(q, f)))
            if name == 'find_map': return done(ite(e, subst(r, {k: f}), NONE))
            cnt = ite(e, f, n)
            if name == 'take_while': return done(s.mkiter(take(q, cnt)))
            if name == 'map_while': return done(s.mkiter(fm(cnt, k, lit([pay(r, 'Some', '0')]))))
            return done(s.mkiter(skip(q, cnt)))
        if name == 'nth':
            i = V(1); return done(opt(ilt(i, n), at(q, i)))
        if name == 'last': return done(opt(ilt(ZERO, n), at(q, sub(n, ONE))))
        if name in ('min', 'max', 'min_by', 'max_by', 'min_by_key', 'max_by_key'):
            return done(s.extremum(fn, name, q, args, st, pans))
        if name == 'fold':
            def body(acc, x, store):
                r, st2, p = I.call_value(args[2], [acc, x], store)
                return r, st2, p, FALSE
            acc, st2, p = s.drive(q, st, ('fold', span), args[1], body); pans += p
            return acc, st2, pans
        if name == 'for_each':
            def body(acc, x, store):
                r, st2, p = I.call_value(args[1], [x], store)
                return UNIT, st2, p, FALSE
            acc, st2, p = s.drive(q, st, ('for_each', span), UNIT, body); pans += p
            return UNIT, st2, pans
        if name == 'unzip':
            return done(tup(seq_map(q, lambda x: proj(x, '0')), seq_map(q, lambda x: proj(x, '1'))))
        if name == 'partition':
            r1 = s.each(q, args[1], st, pans, 'fm', lambda x, r: ite(as_bool(r), lit([x]), NIL))
            r2 = s.each(q, args[1], st, pans, 'fm', lambda x, r: ite(as_bool(r), NIL, lit([x])))
            return done(tup(r1, r2))
        if name == 'size_hint': return done(tup(n, some(n)))
        return None
    def flat(s, x, st, fn):
        return s.seq(x, st)
    def extremum(s, fn, name, q, args, st, pans):
        n = length(q)
        k = fresh('nat'); BOUND[k] = n
        x = at(q, k)
        if name in ('min', 'max'): key = lambda e: e
        elif name.endswith('_key'):
            def key(e):
                r, p = s.pure(args[1], [e], st); return r
        else:
            a, b = fresh('any'), fresh('any')
            r, p = s.pure(args[1], [a, b], st)
            cands = [lambda e: e] + [lambda e, i=i: proj(e, str(i)) for i in range(3)] + [lambda e: neg(e)]
            key = None
            for f in cands:
                try:
                    for cm in (s.cmp_real, s.cmp_int):
                        if r is cm(f(a), f(b)): key = f
                except Exception: pass
                if key: break
            if key is None: return unk('comparator')
            pans += [(unk('comparator panic'), kd, sp) for c, kd, sp in p if c is not FALSE]
        kv = key(x)
        if kv.op in ('struct', 'enum', 'unk'): return unk('extremum key')
        ints = leaves_nat(kv) or all(nonneg_var(l) for l in leaves(kv))
        if name.startswith('min'):
            M = minv(n, k, kv); ix = first(n, k, le_for(kv, M))
        else:
            M = minv(n, k, neg(kv)); ix = last(n, k, le_for(neg(kv), M))
        if name == 'min': return opt(ilt(ZERO, n), M)
        if name == 'max': return opt(ilt(ZERO, n), neg(M))
        return opt(ilt(ZERO, n), at(q, ix))
    # ------------------------------------------------------------ collections
    def c_map(s, fn, name, args, st, span, dty, pans, V, isset=False):
        I = s.I
        if name in ('new', 'with_capacity'): return mk('map', NIL)
        m = V(0)
        if m.op != 'map': return None
        keq = s.keyeq(fn)
        if name == 'insert':
            v = UNIT if isset else args[2]
            e, old = lookup(m.a[0], args[1], keq)
            r = b_not(e) if isset else (NONE if old is DEAD else opt(e, old))
            return r, I.write_ref(st, args[0], mk('map', cat([m.a[0], lit([tup(args[1], v)])]))), pans
        if name in ('contains_key', 'contains'):
            return lookup(m.a[0], V(1), keq)[0]
        if name in ('get', 'get_key_value') and not isset:
            e, v = lookup(m.a[0], V(1), keq)
            return NONE if v is DEAD else opt(e, v)
        if name == 'is_empty': return ieq(length(m.a[0]), ZERO)
        return None
    def c_set(s, *a): return s.c_map(*a, isset=True)
    def c_deque(s, fn, name, args, st, span, dty, pans, V):
        I = s.I; same_ = {'push_back': 'push', 'pop_back': 'pop', 'front': 'first', 'back': 'last', 'front_mut': 'first_mut', 'back_mut': 'last_mut'}
        if name in same_: return s.c_vec(fn, same_[name], args, st, span, dty, pans, V)
        if name in ('push_front', 'pop_front', 'remove', 'make_contiguous', 'swap_remove_back', 'swap_remove_front', 'as_slices', 'as_mut_slices', 'split_off'):
            b = V(0)
            if b.op == 'unk': return b, s.poison(args, st), pans
            W = lambda v, r=UNIT: (r, I.write_ref(st, args[0], v), pans)
            if name == 'push_front': return W(cat([lit([args[1]]), b]))
            if name == 'pop_front':
                c = ilt(ZERO, length(b))
                return W(ite(c, skip(b, ONE), b), opt(c, at(b, ZERO)))
            if name == 'remove':
                i = V(1); c = ilt(i, length(b))
                return W(ite(c, remove_at(b, i), b), opt(c, at(b, i)))
            if name == 'make_contiguous': return args[0]
            return None
        return s.c_vec(fn, name, args, st, span, dty, pans, V)
    def c_vec(s, fn, name, args, st, span, dty, pans, V):
        I = s.I
        if name in ('new', 'with_capacity'): return NIL
        if name == 'from_elem': return unk('from_elem')
        if not args: return None
        b = V(0)
        if b.op == 'unk' and name not in (): return (b, s.poison(args, st), pans)
        W = lambda v, r=UNIT: (r, I.write_ref(st, args[0], v), pans)
        if name == 'len': return length(b)
        if name == 'is_empty': return ieq(length(b), ZERO)
        if name == 'push': return W(cat([b, lit([args[1]])]))
        if name in ('iter', 'as_slice', 'to_vec', 'as_ref', 'into_vec', 'to_owned', 'into_boxed_slice', 'as_mut_slice', 'as_mut', 'from_ref'):
            if name == 'iter': return s.mkiter(b)
            if name in ('as_mut_slice', 'as_mut'): return args[0]
            return b
        if name == 'iter_mut': return s.to_iter(args[0], st)
        if name in ('get', 'get_mut'):
            i = V(1)
            if i.op == 'struct': return None
            if name == 'get_mut':
                from interp import ext
                return opt(ilt(i, length(b)), ext(args[0], i))
            return opt(ilt(i, length(b)), at(b, i))
        if name in ('get_unchecked',): return at(b, V(1))
        if name in ('first', 'last', 'first_mut', 'last_mut'):
            n = length(b); i = ZERO if 'first' in name else sub(n, ONE)
            if name.endswith('_mut'):
                from interp import ext
                return opt(ilt(ZERO, n), ext(args[0], i))
            return opt(ilt(ZERO, n), at(b, i))
        if name == 'contains':
            x = V(1)
            ti = fn['args'][0] if fn.get('args') else -1
            return seq_exists(b, lambda e: s.eq_ty(e, x, ti))
        if name == 'pop':
            n = length(b); c = ilt(ZERO, n)
            return W(ite(c, pop(b), b), opt(c, at(b, sub(n, ONE))))
        if name == 'remove':
            i = V(1); pans.append((b_not(ilt(i, length(b))), 'bounds', span))
            return W(remove_at(b, i), at(b, i))
        if name == 'swap_remove':
            i = V(1); pans.append((b_not(ilt(i, length(b))), 'bounds', span))
            return W(swap_remove(b, i), at(b, i))
        if name == 'insert':
            i = V(1); pans.append((ilt(length(b), i), 'bounds', span))
            return W(cat([take(b, i), lit([args[2]]), skip(b, i)]))
        if name == 'clear': return W(NIL)
        if name == 'truncate':
            return W(take(b, imin(V(1), length(b))))
        if name in ('extend_from_slice',): return W(cat([b, V(1)]))
        if name == 'append':
            o = V(1)
            st2 = I.write_ref(st, args[0], cat([b, o])); st2 = I.write_ref(st2, args[1], NIL)
            return UNIT, st2, pans
        if name in ('reserve', 'shrink_to_fit', 'reserve_exact'): return UNIT
        if name == 'reverse': return W(rev(b))
        if name == 'swap':
            i, j = V(1), V(2); n = length(b)
            pans.append((b_or(b_not(ilt(i, n)), b_not(ilt(j, n))), 'bounds', span))
            return W(upd(upd(b, i, at(b, j)), j, at(b, i)))
        if name == 'retain':
            return W(s.each(b, args[1], st, pans, 'fm', lambda x, r: ite(as_bool(r), lit([x]), NIL)))
        if name == 'windows':
            w = V(1)
            if not is_const(w): return unk('windows')
            n = rcount(sub(w, ONE), length(b)); k = fresh('nat'); BOUND[k] = n
            return s.mkiter(fm(n, k, lit([lit([at(b, add(k, num(j))) for j in range(int(cval(w)))])])))
        if name == 'split_at':
            m = V(1); pans.append((ilt(length(b), m), 'bounds', span))
            return tup(take(b, m), skip(b, m))
        if name == 'split_at_mut':
            from interp import ext
            m = V(1); pans.append((ilt(length(b), m), 'bounds', span))
            return tup(ext(args[0], app('slice', ZERO, m)), ext(args[0], app('slice', m, length(b))))
        if name == 'split_first':
            n = length(b); return opt(ilt(ZERO, n), tup(at(b, ZERO), skip(b, ONE)))
        if name == 'split_last':
            n = length(b); return opt(ilt(ZERO, n), tup(at(b, sub(n, ONE)), take(b, sub(n, ONE))))
        if name == 'resize':
            n = V(1); x = args[2]; k = fresh('nat')
            return W(ite(ile(n, length(b)), take(b, n), cat([b, fm(rcount(length(b), n), k, lit([x]))])))
        if name == 'drain':
            r = args[1]
            if r.op == 'struct':
                lo, hi = s.bounds(r, length(b))
                pans.append((b_or(ilt(length(b), hi), ilt(hi, lo)), 'slice', span))
                return W(cat([take(b, lo), skip(b, hi)]), s.mkiter(skip(take(b, hi), lo)))
        if name == 'concat': return None
        # anything else may modify the vector
        return (unk('Vec::' + name), s.poison(args, st), pans)
    def poison(s, args, st):
        for a in args:
            for m in mrefs(a): st = s.I.write_ref(st, m, unk('unmodelled call'))
        return st
    def c_box(s, fn, name, args, st, span, dty, pans, V):
        if name == 'new_uninit':
            s.n += 1; root = ('box', s.n)
            st = dict(st); st[root] = mk('uninit')
            return mk('mref', root, ()), st, pans
        if name == 'box_assume_init_into_vec_unsafe': return V(0)
        if name in ('new', 'pin'): return args[0]
        if name in ('as_ref', 'as_mut', 'leak', 'into_vec'): return args[0]
    def c_mem(s, fn, name, args, st, span, dty, pans, V):
        I = s.I
        if name == 'swap':
            a, b = V(0), V(1)
            return UNIT, I.write_ref(I.write_ref(st, args[0], b), args[1], a), pans
        if name == 'replace':
            a = V(0); return a, I.write_ref(st, args[0], args[1]), pans
        if name == 'take':
            a = V(0); return a, I.write_ref(st, args[0], s.default(fn['args'][0])), pans
        if name in ('drop', 'forget'): return UNIT
    def c_bool(s, fn, name, args, st, span, dty, pans, V):
        if name == 'then_some': return opt(as_bool(V(0)), args[1])
        if name == 'then':
            r, st2, p = s.I.call_value(args[1], [], st)
            c = as_bool(V(0)); pans += [(b_and(c, x), k, sp) for x, k, sp in p]
            return opt(c, r), s.I.merge([(c, st2), (TRUE, st)]), pans
    def c_range(s, fn, name, args, st, span, dty, pans, V):
        if name == 'new' and len(args) == 2: return struct('RangeInclusive', ('start', 'end'), (args[0], args[1]))
        r = V(0)
        if name == 'contains':
            x = V(1)
            ti = fn['args'][0] if fn.get('args') else -1
            _, t = s.p.strip(ti) if ti >= 0 else (0, {'k': 'param'})
            L, E = (ilt, ile) if t['k'] in ('uint', 'int') else (lt, le)
            c = TRUE
            if 'start' in r.a[1]: c = b_and(c, E(proj(r, 'start'), x))
            if 'end' in r.a[1]: c = b_and(c, (E if 'Inclusive' in r.a[0] else L)(x, proj(r, 'end')))
            return c
        if name in ('start', 'end'): return proj(r, name)
        if name == 'is_empty': return b_not(ilt(proj(r, 'start'), proj(r, 'end'))) if 'Inclusive' not in r.a[0] else ilt(proj(r, 'end'), proj(r, 'start'))
    def c_str(s, fn, name, args, st, span, dty, pans, V):
        if name in ('new', 'with_capacity'): return string('')
        if name in ('as_str', 'to_string', 'to_owned', 'clone', 'from', 'into', 'as_ref', 'into_string', 'to_lowercase', 'trim') and args: return V(0) if name not in ('to_lowercase', 'trim') else mk('app', 'str.' + name, V(0))
        if name == "is_empty" and args: return boolc(V(0).a[0] == "") if V(0).op == "str" else unk("str") if V(0).unk else ieq(nat(app("strlen", V(0))), ZERO)
        if name == 'len': return nat(app('strlen', V(0)))
        return None
    def c_iter(s, fn, name, args, st, span, dty, pans, V):
        if name == 'repeat' and args: return struct_raw('Endless.repeat', ('0',), (args[0],))
        if name == 'once': return s.mkiter(lit([args[0]]))
        if name == 'empty': return s.mkiter(NIL)
        if name == 'zip' and len(args) == 2: return s.t_Iterator(fn, 'zip', [s.to_iter(args[0], st), args[1]], st, span, dty, pans, V)
    # ------------------------------------------------------------ Option / Result
    def c_option(s, fn, name, args, st, span, dty, pans, V): return s.optres(fn, name, args, st, span, dty, pans, V, 'Some', 'None')
    def c_result(s, fn, name, args, st, span, dty, pans, V): return s.optres(fn, name, args, st, span, dty, pans, V, 'Ok', 'Err')
    def optres(s, fn, name, args, st, span, dty, pans, V, Y, N):
        I = s.I
        v = V(0)
        if v.op == 'unk': return v, s.poison(args, st), pans
        good = isv(v, Y); val = pay(v, Y, '0')
        wrap = some if Y == 'Some' else ok
        def no(): return NONE if Y == 'Some' else err(pay(v, 'Err', '0'))
        def call(f, vals, cond):
            r, st2, p = I.call_value(f, vals, st)
            for c, k, sp in p: pans.append((b_and(cond, c), k, sp))
            return r, (st2 if cond is TRUE else I.merge([(cond, st2), (TRUE, st)]))
        D = lambda c, a, b: b if a is DEAD else a if b is DEAD else ite(c, a, b)
        if name in ('is_some', 'is_ok'): return good
        if name in ('is_none', 'is_err'): return b_not(good)
        if name in ('unwrap', 'expect'):
            pans.append((b_not(good), 'unwrap', span)); return val
        if name == 'unwrap_or': return D(good, val, args[1])
        if name == 'unwrap_or_default': return D(good, val, s.default(dty))
        if name == 'unwrap_unchecked': return val
        if name == 'unwrap_or_else':
            r, st2 = call(args[1], [] if Y == 'Some' else [pay(v, 'Err', '0')], b_not(good)); return D(good, val, r), st2, pans
        if name in ('as_ref', 'copied', 'cloned', 'as_deref', 'iter'): return v if name != 'iter' else s.to_iter(v, st)
        if name == 'as_mut':
            from interp import ext
            if args[0].op != 'mref': return unk('as_mut')
            pth = OPT if Y == 'Some' else RES
            return ite(good, wrap(ext(args[0], 'V#%s#%s#0' % (pth, Y))), NONE) if Y == 'Some' else unk('as_mut')
        if val is DEAD: val = unk('absent payload') if name not in ('map', 'and_then', 'map_or', 'filter', 'is_some_and', 'map_or_else') else DEAD
        if name == 'map':
            if val is DEAD: return v
            r, st2 = call(args[1], [val], good); return ite(good, wrap(r), no() if good is not TRUE else NONE), st2, pans
        if name == 'and_then':
            if val is DEAD: return v
            r, st2 = call(args[1], [val], good); return ite(good, r, no() if good is not TRUE else NONE), st2, pans
        if name == 'map_or':
            if val is DEAD: return args[1]
            r, st2 = call(args[2], [val], good); return ite(good, r, args[1]), st2, pans
        if name == 'map_or_else':
            r0, st0 = call(args[1], [], b_not(good))
            if val is DEAD: return r0, st0, pans
            r, st2 = call(args[2], [val], good); return ite(good, r, r0), st2, pans
        if name in ('is_some_and', 'is_ok_and'):
            if val is DEAD: return FALSE
            r, st2 = call(args[1], [val], good); return b_and(good, as_bool(r)), st2, pans
        if name == 'is_none_or':
            r, st2 = call(args[1], [val], good); return b_or(b_not(good), as_bool(r)), st2, pans
        if name == 'filter':
            if val is DEAD: return v
            r, st2 = call(args[1], [val], good); return ite(b_and(good, as_bool(r)), v, NONE), st2, pans
        if name == 'ok_or': return ite(good, ok(val), err(args[1]))
        if name == 'ok_or_else':
            r, st2 = call(args[1], [], b_not(good)); return ite(good, ok(val), err(r)), st2, pans
        if name == 'ok': return ite(good, some(val), NONE)
        if name == 'err': return ite(good, NONE, some(pay(v, 'Err', '0')))
        if name == 'map_err':
            r, st2 = call(args[1], [pay(v, 'Err', '0')], b_not(good)); return ite(good, v, err(r)), st2, pans
        if name == 'or': return ite(good, v, args[1])
        if name == 'and': return ite(good, args[1], no())
        if name == 'or_else':
            r, st2 = call(args[1], [], b_not(good)); return ite(good, v, r), st2, pans
        if name == 'take': return v, I.write_ref(st, args[0], NONE), pans
        if name == 'replace': return v, I.write_ref(st, args[0], some(args[1])), pans
        if name == 'zip':
            w = V(1); return ite(b_and(good, isv(w, 'Some')), some(tup(val, pay(w, 'Some', '0'))), NONE)
        return None
    # ------------------------------------------------------------ numbers
    def c_float(s, fn, name, args, st, span, dty, pans, V):
        a = V(0) if args else None
        if a is not None and a.op == 'unk': return a
        if a is not None and a.op in ('struct', 'enum'): return None
        b = V(1) if len(args) > 1 else None
        if name == 'abs': return absv(a)
        if name == 'sqrt': return sqrt(a)
        if name in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'ln'): return app1(name, a)
        if name == 'sin_cos': return tup(app1('sin', a), app1('cos', a))
        if name in ('max', 'fmax', 'maximum'): return s.dom(fmax, a, b)
        if name in ('min', 'fmin', 'minimum'): return s.dom(fmin, a, b)
        if name == 'clamp': return fmin(fmax(a, b), V(2))
        if name == 'recip': return div(ONE, a)
        if name == 'mul_add': return add(mul(a, b), V(2))
        if name == 'hypot': return sqrt(add(mul(a, a), mul(b, b)))
        if name in ('powi', 'powf', 'pow'):
            if b.op == 'num' and is_const(b) and cval(b).denominator == 1 and 0 <= cval(b) <= 8:
                r = ONE
                for _ in range(int(cval(b))): r = mul(r, a)
                return r
            if is_const(b) and cval(b) == Fraction(1, 2): return sqrt(a)
            if is_const(b) and cval(b) == -1: return div(ONE, a)
            return app('pow', a, b)
        if name == 'signum': return ite(lt(a, ZERO), num(-1), ONE)
        if name == 'to_radians': return mul(a, num(Fraction(3.14159265358979323846) / 180))
        if name == 'to_degrees': return div(mul(a, num(180)), num(Fraction(3.14159265358979323846)))
        if name == 'is_nan': return FALSE
        if name == 'is_infinite': return FALSE
        if name == 'is_finite': return TRUE
        if name == 'is_sign_negative': return lt(a, ZERO)
        if name == 'is_sign_positive': return b_not(lt(a, ZERO))
        if name == 'atan2': return app('atan2', a, b)
        if name == 'epsilon': return EPS
        if name in ('floor', 'ceil', 'round', 'trunc', 'fract'): return app(name, a)
        if name in ('max_value', 'infinity'): return HUGE
        if name in ('min_value', 'neg_infinity'): return neg(HUGE)
        if name == 'abs_sub': return fmax(sub(a, b), ZERO)
        if name == 'neg_zero': return ZERO
        if name == 'total_cmp': return s.cmp_real(a, b)
        return None
    def dom(s, f, a, b): return f(a, b)
    def c_int(s, fn, name, args, st, span, dty, pans, V):
        a = V(0) if args else None
        if a is not None and a.op == 'unk': return a
        b = V(1) if len(args) > 1 else None
        import re
        from interp import WORDS, wrap
        m = re.search(r'<impl ([iu](?:8|16|32|64|128|size))>', fn.get('respath') or fn.get('path') or '')
        if m:
            t = {'name': m.group(1), 'k': 'uint' if m.group(1)[0] == 'u' else 'int'}
            if s.I.lims(t):
                if name in ('max_value', 'min_value') and not args: return num(s.I.lims(t)[name == 'max_value'])
                lo, hi = s.I.lims(t); bits = WORDS[t['name']][1]
                kind, _, o = name.partition('_')
                o2 = o if kind in ('wrapping', 'checked', 'saturating', 'overflowing') else name
                r = {'add': lambda: add(a, b), 'sub': lambda: sub(a, b), 'mul': lambda: mul(a, b), 'pow': lambda: app('pow', a, b), 'neg': lambda: neg(a), 'shl': lambda: mul(a, app('pow', num(2), app('irem', b, num(bits))))}.get(o2)
                if r is not None and (kind in ('wrapping', 'checked', 'saturating') or name == 'pow'):
                    r = r(); out = b_or(ilt(num(hi), r), ilt(r, num(lo)))
                    if name == 'pow': pans.append((out, 'overflow:pow', span)); return r
                    if kind == 'wrapping': return wrap(r, lo, hi)
                    if kind == 'checked': return opt(ilt(b, num(bits)), wrap(mul(a, app('pow', num(2), b)), lo, hi)) if o == 'shl' else opt(b_not(out), r)
                    return imax(imin(r, num(hi)), num(lo))
                if kind == 'overflowing' or name in ('rotate_left', 'rotate_right', 'swap_bytes', 'reverse_bits', 'leading_zeros', 'trailing_zeros', 'count_ones'): return None
        if name == 'pow':
            if is_const(b) and cval(b) <= 8:
                r = ONE
                for _ in range(int(cval(b))): r = mul(r, a)
                return r
            return app('pow', a, b)
        if name == 'saturating_sub': return ite(ile(b, a), sub(a, b), ZERO)
        if name == 'checked_sub': return opt(ile(b, a), sub(a, b))
        if name in ('wrapping_sub',): return ite(ile(b, a), sub(a, b), unk('wrapping'))
        if name in ('checked_add', ): return some(add(a, b))
        if name in ('checked_mul', ): return some(mul(a, b))
        if name in ('wrapping_add', 'saturating_add', 'unchecked_add'): return add(a, b)
        if name in ('wrapping_mul', 'saturating_mul'): return mul(a, b)
        if name == 'checked_div': return opt(ine(b, ZERO), app('idiv', a, b))
        if name == 'checked_rem': return opt(ine(b, ZERO), app('irem', a, b))
        if name == 'rem_euclid': return app('irem', a, b)
        if name == 'div_euclid': return app('idiv', a, b)
        if name == 'abs': return ite(ilt(a, ZERO), neg(a), a)
        if name == 'abs_diff': return ite(ilt(a, b), sub(b, a), sub(a, b))
        if name == 'min': return imin(a, b)
        if name == 'max': return imax(a, b)
        if name == 'is_power_of_two': return None
        return None
    def c_cmp(s, fn, name, args, st, span, dty, pans, V):
        if name in ('min', 'max') and len(args) == 2:
            ti = fn['args'][0] if fn.get('args') else -1
            _, t = s.p.strip(ti)
            if t['k'] in ('uint', 'int'): return (imin if name == 'min' else imax)(V(0), V(1))
            return (fmin if name == 'min' else fmax)(V(0), V(1))
        v = V(0) if args else None
        if v is None: return None
        w = {'is_lt': (LESS,), 'is_le': (LESS, EQUAL), 'is_gt': (GREATER,), 'is_ge': (GREATER, EQUAL), 'is_eq': (EQUAL,), 'is_ne': (LESS, GREATER)}.get(name)
        if w: return lift_leaves(v, lambda l: boolc(l in w))
        if name == 'reverse': return lift_leaves(v, lambda l: GREATER if l is LESS else LESS if l is GREATER else l)
        if name == 'then': return lift_leaves(v, lambda l: V(1) if l is EQUAL else l)
        if name == 'then_with':
            r, p = s.pure(args[1], [], st); return lift_leaves(v, lambda l: r if l is EQUAL else l)
    # ------------------------------------------------------------ nalgebra / glm
    def c_glm(s, fn, name, args, st, span, dty, pans, V):
        a = V(0) if args else None
        b = V(1) if len(args) > 1 else None
        if name in ('epsilon',): return EPS
        if name in ('new', 'vec2') and len(args) == 2: return vec2(args[0], args[1])
        if name in ('zeros', 'zero') and not args: return vec2(ZERO, ZERO)
        if name == 'repeat': return vec2(a, a)
        if a is None: return None
        if a.op == 'unk': return a, s.poison(args, st), pans
        if b is not None and b.op == 'unk': return b
        if name in ('distance',): return v2dist(a, b)
        if name == 'metric_distance': return v2dist(a, b)
        if name in ('distance2',): return v2dot(v2sub(a, b), v2sub(a, b))
        if name in ('length', 'norm', 'magnitude'): return v2len(a)
        if name in ('length2', 'magnitude2', 'norm_squared', 'magnitude_squared'): return v2dot(a, a)
        if name == 'dot': return v2dot(a, b)
        if name == 'normalize': return v2div(a, v2len(a))
        if name == 'try_normalize': return opt(lt(b, v2len(a)), v2div(a, v2len(a)))
        if name == 'normalize_dot': return div(v2dot(a, b), mul(v2len(a), v2len(b)))
        if name in ('perp', 'cross2d'): return sub(mul(proj(a, 'x'), proj(b, 'y')), mul(proj(a, 'y'), proj(b, 'x')))
        if name in ('lerp', 'mix'):
            t = V(2); return v2add(v2scale(a, sub(ONE, t)), v2scale(b, t))
        if name == 'scale': return v2scale(a, b)
        if name in ('clone_owned', 'into_owned', 'clone', 'xy'): return a
        if name == 'x': return proj(a, 'x')
        if name == 'y': return proj(a, 'y')
        if name == 'deref_mut' or name == 'deref': return args[0]
        if name in ('add', 'sub') : return None
        return None
def any_mref(q): return q.op == 'fm' and any('mref' == l.op for e in leaves(q.a[3]) if e.op == 'lit' for l in e.a[0])
def le_for(a, b): return le(a, b)
def opt_seq(r):
    return lift('optseq', lambda l: NIL if l.op == 'enum' and l.a[1] == 'None' else lit([l.a[3][0]]) if l.op == 'enum' else ite(isv(l, 'Some'), lit([pay(l, 'Some', '0')]), NIL) if l.op in OPAQUE else unk('option'), r)
