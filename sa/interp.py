"""Forward value-numbering dataflow over MIR.

Every MIR function is summarised by canonical terms (terms.py): the returned value, the final contents of everything
reachable through a `&mut` argument, and the condition under which it panics.  Conditions are kept relative to the
immediate dominator, joins merge values into decision diagrams, natural loops are collapsed into one node and solved in
closed form (counters, sums, flags, appends, in-place maps, minima) or kept as an exact recurrence.  No path is
enumerated, no solver is called and nothing of the crate is executed.
"""
import json, struct as _struct
from fractions import Fraction
from terms import *
import terms as TM

SEQISH = ('sym', 'fresh', 'rec', 'cat', 'fm', 'lit', 'upd', 'ite', 'proj', 'bv', 'at')
class Ty:
    def __init__(s, d): s.d = d
class Program:
    def __init__(s, path):
        d = json.load(open(path)) if isinstance(path, str) else path
        s.d = d; s.types = d['types']; s.fns = {}
        for f in d['fns']: s.fns[f['key']] = f
        s.adts = {a['path']: a for a in d['adts']}
        s.by_path = {}
        for f in d['fns']: s.by_path.setdefault(f['path'], []).append(f)
        s.impls = {}
        for f in d['fns']:
            if 'trait' in f and 'implself' in f:
                p = s.tpath(f['implself'])
                s.impls.setdefault((f['trait'], f['name'], p), []).append(f)
        s.fnrefs = {}
    def ty(s, i): return s.types[i] if i >= 0 else {'k': 'other', 's': '?'}
    def tpath(s, i):
        t = s.ty(i)
        return t.get('path') if t['k'] == 'adt' else t['k'] if t['k'] not in ('int', 'uint', 'float') else t['name']
    def strip(s, i):
        t = s.ty(i)
        while t['k'] in ('ref', 'ptr'): i = t['t']; t = s.ty(i)
        return i, t
    def find(s, suffix, **kw):
        r = []
        for f in s.d['fns']:
            if (f['path'] == suffix or f['path'].endswith('::' + suffix)) and all(f.get(k) == v for k, v in kw.items()): r.append(f)
        return r
    def method(s, adt, name, trait=None, arg=None):
        """Methods `name` implemented for the ADT with last path segment `adt`."""
        r = []
        for f in s.d['fns']:
            if f.get('name') != name or 'implself' not in f: continue
            p = s.tpath(f['implself'])
            if p.split('::')[-1] != adt: continue
            tr = f.get('trait')
            if (trait is None) != (tr is None): continue
            if trait is not None and tr.split('::')[-1] != trait: continue
            if arg is not None:
                ta = [s.tpath(x).split('::')[-1] for x in f.get('traitargs', [])[1:]]
                if not ta: ta = [adt]
                if ta[0] != arg: continue
            r.append(f)
        return r

TRANSPARENT = ('MaybeUninit', 'ManuallyDrop', 'Box', 'Unique', 'NonNull', 'MaybeDangling', 'UnsafeCell')
class Unsupported(Exception): pass

def fbits(b, size):
    f = _struct.unpack('<f', _struct.pack('<I', b))[0] if size == 4 else _struct.unpack('<d', _struct.pack('<Q', b))[0]
    if f != f: return unk('NaN constant')
    if f in (float('inf'),) or f == _struct.unpack('<f', b'\xff\xff\x7f\x7f')[0] or f == 1.7976931348623157e308: return HUGE
    if f == float('-inf') or f == -_struct.unpack('<f', b'\xff\xff\x7f\x7f')[0]: return neg(HUGE)
    if f == 2.0 ** -23 or f == 2.0 ** -52: return EPS
    if f == -2.0 ** -23: return neg(EPS)
    return num(Fraction(f))

def lits_of(c):
    """Literals (atom, polarity) implied by condition c when it is a cube prefix."""
    out = []
    while c.op == 'ite':
        if c.a[2] is FALSE: out.append((c.a[0], True)); c = c.a[1]
        elif c.a[1] is FALSE: out.append((c.a[0], False)); c = c.a[2]
        else: break
    return tuple(out)
_ref = {}
def refine(t, lits):
    if not lits: return t
    if t.op == 'ite':
        k = (t, lits); r = _ref.get(k)
        if r is None:
            r = t
            for at_, v in lits: r = restrict(r, at_, v)
            if r.op in ('struct', 'enum', 'iter'): r = refine(r, lits)
            _ref[k] = r
        return r
    if t.op in ('struct', 'enum', 'iter', 'map', 'closure'):
        k = (t, lits); r = _ref.get(k)
        if r is None:
            r = _ref[k] = map_kids(t, lambda x: refine(x, lits))
        return r
    if t.op == 'lit' and len(t.a[0]) <= 4:
        return lit([refine(x, lits) for x in t.a[0]])
    return t
def map_kids(t, f):
    if t.op == 'struct':
        fs = tuple(f(x) for x in t.a[2])
        return t if fs == t.a[2] else struct(t.a[0], t.a[1], fs)
    if t.op == 'enum':
        fs = tuple(f(x) for x in t.a[3])
        return t if fs == t.a[3] else mk('enum', t.a[0], t.a[1], t.a[2], fs)
    if t.op == 'iter': return mk('iter', f(t.a[0]), f(t.a[1]))
    if t.op == 'map': return mk('map', f(t.a[0]))
    if t.op == 'closure': return mk('closure', t.a[0], tuple(f(x) for x in t.a[1]))
    return t

_con = {}
def constrain(f, c):
    """Generalised cofactor: depends on f only where c holds."""
    if c is TRUE or f.op != 'ite' or c.op != 'ite': return f
    k = (f, c); r = _con.get(k)
    if r is None:
        top = min((f.a[0], c.a[0]), key=akey)
        c1, c0 = cof(c, top); f1, f0 = cof(f, top)
        if c0 is FALSE: r = constrain(f1, c1)
        elif c1 is FALSE: r = constrain(f0, c0)
        else: r = ite_atom(top, constrain(f1, c1), constrain(f0, c0))
        _con[k] = r
    return r
def constrain_v(t, c):
    if c.op != 'ite': return t
    if t.op == 'ite': return constrain(t, c)
    if t.op in ('struct', 'enum', 'iter', 'map', 'closure'): return map_kids(t, lambda x: constrain_v(x, c))
    return t

class Body:
    """CFG facts of one MIR body."""
    def __init__(s, fn, body):
        s.fn = fn; s.b = body; s.blocks = body['blocks']
        n = len(s.blocks)
        s.succ = [s._succ(i) for i in range(n)]
        s.pred = [[] for _ in range(n)]
        s.reach = []
        seen = {0}; st = [(0, iter(s.succ[0]))]; post = []
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen: seen.add(y); st.append((y, iter(s.succ[y]))); break
            else: post.append(x); st.pop()
        s.rpo = post[::-1]
        pos = {b: i for i, b in enumerate(s.rpo)}
        for x in s.rpo:
            for y in s.succ[x]: s.pred[y].append(x)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in s.rpo[1:]:
                ps = [p for p in s.pred[x] if p in idom]
                d = ps[0]
                for p in ps[1:]: d = inter(d, p, idom, pos)
                if idom.get(x) != d: idom[x] = d; ch = True
        s.idom = idom
        def dom(a, b):
            while b != a and b != 0: b = idom[b]
            return a == b
        s.loops = {}
        s.irreducible = False
        for x in s.rpo:
            for y in s.succ[x]:
                if dom(y, x):
                    body_ = s.loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z in body_: continue
                        body_.add(z); st += s.pred[z]
                elif pos[y] <= pos[x]: s.irreducible = True
        s.live = s._liveness()
    def _succ(s, i):
        t = s.blocks[i]['t']; k = t['k']
        if k == 'goto' or k == 'drop' or k == 'assert': return [t['t']]
        if k == 'call': return [t['t']] if t['t'] >= 0 else []
        if k == 'switch':
            r = []
            for _, b in t['ts']:
                if b not in r: r.append(b)
            if t['ot'] not in r: r.append(t['ot'])
            return r
        return []
    def _liveness(s):
        n = len(s.blocks); use = []; dfn = []
        s.mutb = set()
        def pl_use(p, u, d):
            for e in p['p']:
                if e['k'] == 'index' and e['l'] not in d: u.add(e['l'])
        for bl in s.blocks:
            u, d = set(), set()
            def rd(p):
                pl_use(p, u, d)
                if p['l'] not in d: u.add(p['l'])
            def wr(p):
                pl_use(p, u, d)
                if p['p']:
                    if p['l'] not in d: u.add(p['l'])
                else: d.add(p['l'])
            def opnd(o):
                if o['k'] in ('copy', 'move'): rd(o['p'])
            for st in bl['st']:
                if st['k'] != 'assign': continue
                r = st['r']
                for f in ('o', 'a', 'b'):
                    if f in r and isinstance(r[f], dict): opnd(r[f])
                for o in r.get('ops', []): opnd(o)
                if 'p' in r:
                    rd(r['p'])
                    if r['k'] == 'ref' and r['mut'] and not any(e['k'] == 'deref' for e in r['p']['p']): s.mutb.add(r['p']['l'])
                wr(st['p'])
            t = bl['t']
            if t['k'] == 'switch': opnd(t['o'])
            if t['k'] == 'assert': opnd(t['c'])
            if t['k'] == 'call':
                opnd(t['f'])
                for o in t['a']: opnd(o)
                wr(t['d'])
            if t['k'] == 'return': u.add(0) if 0 not in d else None
            use.append(u); dfn.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for x in reversed(s.rpo):
                out = set()
                for y in s.succ[x]: out |= live[y]
                new = use[x] | (out - dfn[x])
                if new != live[x]: live[x] = new; ch = True
        return live
WORDS = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'usize': (0, 64), 'u128': (0, 128), 'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'isize': (1, 64), 'i128': (1, 128)}
def word(t):
    """smallest and largest value of a machine word"""
    w = WORDS.get(t.get('name'))
    return None if w is None else (-(1 << w[1] - 1), (1 << w[1] - 1) - 1) if w[0] else (0, (1 << w[1]) - 1)
def outside(r, t):
    lo, hi = word(t)
    o = ilt(num(hi), r)
    return b_or(o, ilt(r, num(lo)))
def wrap(v, lo, hi):
    if is_const(v): return num((int(cval(v)) - lo) % (hi - lo + 1) + lo)
    return app('wrap', v, num(lo), num(hi))
def inter(a, b, idom, pos):
    while a != b:
        while pos[a] > pos[b]: a = idom[a]
        while pos[b] > pos[a]: b = idom[b]
    return a

class Frame:
    def __init__(s, body, fid): s.body = body; s.id = fid; s.fn = body.fn

class Interp:
    def __init__(s, prog, opaque=None, observers=None, words=False):
        s.words = words      # whether integers are machine words (otherwise: integers)
        s.p = prog; s.opaque = opaque or {}
        s.nf = 0; s.stack = []
        s.stats = {'functions': set(), 'blocks': 0, 'loops': {}, 'calls': set(), 'unmodelled': set()}
        s.bodies = {}
        import models
        s.models = models.Models(s)
        s.panics = None      # panic list of the node being executed
        s.loopinfo = {}
    # ---------------------------------------------------------------- entry points
    def body(s, fn, b=None):
        k = (fn['key'], id(b) if b is not None else None)
        if k not in s.bodies: s.bodies[k] = Body(fn, b if b is not None else fn['body'])
        return s.bodies[k]
    def summarize(s, fn, names=None, args=None):
        """(return value, {arg name: final value of the &mut argument}, panics)"""
        store = {}; vals = []; muts = {}
        for i, ti in enumerate(fn['inputs']):
            t = s.p.ty(ti)
            nm = names[i] if names else 'a%d' % i
            it, inner = s.p.strip(ti)
            v = args[i] if args and args[i] is not None else s.sym(nm, it)
            if t['k'] == 'ref' and t['mut']:
                root = ('arg', nm); store[root] = v; vals.append(mk('mref', root, ()))
                muts[nm] = root
            else: vals.append(v)
        ret, store, pan = s.call_body(s.body(fn), vals, store)
        if ret.op == 'mref': ret = s.read_ref(store, ret)
        return ret, {k: store[r] for k, r in muts.items()}, pan
    def sym(s, nm, ti):
        t = s.p.ty(ti)
        v = sym(nm)
        if t['k'] == 'uint': nat(v)
        if t['k'] == 'bool': return as_bool(v)
        return v
    # ---------------------------------------------------------------- function bodies
    def call_body(s, B, vals, store):
        if len(s.stack) > 40 or B in s.stack: return unk('recursion through ' + B.fn['path']), store, []
        if B.irreducible: return unk('irreducible control flow in ' + B.fn['path']), store, []
        s.nf += 1
        F = Frame(B, s.nf)
        s.stats['functions'].add(B.fn['path'])
        st = dict(store)
        for i, v in enumerate(vals): st[(F.id, i + 1)] = v
        s.stack.append(B)
        save = s.panics
        try:
            exits, pans = s.region(F, set(B.rpo), 0, st, None)
        finally:
            s.stack.pop(); s.panics = save
        rets = [(c, x) for t, c, x in exits if t == 'ret']
        if not rets: return DEAD, store, pans
        st = s.merge([(c, x) for c, x in rets])
        ret = st.get((F.id, 0), UNIT)
        out = {k: v for k, v in st.items() if not (isinstance(k[0], int) and k[0] == F.id)}
        return ret, out, pans
    def call_fn(s, fn, vals, store):
        key = fn['key']
        if key in s.opaque:
            nm = s.opaque[key]
            vs = [s.read_ref(store, v) if v.op == 'mref' else v for v in vals]
            r = nm(*vs) if callable(nm) else app(nm, *vs)
            if s.p.ty(fn.get('output', -1))['k'] == 'bool': r = as_bool(r)
            return r, store, []
        return s.call_body(s.body(fn), vals, store)
    def call_value(s, f, vals, store):
        """call a closure / fn item value with already-untupled arguments"""
        if f.op == 'mref': f = s.read_ref(store, f)
        if f.op == 'closure':
            fn = s.p.fns[f.a[0]]
            b = s.body(fn)
            nargs = b.b['argc']
            # closure arguments may be tupled in the body
            vs = [f] + list(vals)
            if nargs == 2 and len(vals) > 1: vs = [f, tup(*vals)]
            root = ('clo', s.nf); 
            et = s.p.ty(b.b['locals'][1])
            if et['k'] == 'ref' and et['mut']:
                st = dict(store); st[root] = f; vs[0] = mk('mref', root, ())
                r, st, p = s.call_body(b, vs, st)
                st = dict(st); st.pop(root, None)
                return r, st, p
            return s.call_body(b, vs, store)
        if f.op == 'fnref':
            return s.call_ref(s.p.fnrefs[f.a[0]], list(vals), store, None, -1)
        return unk('call of ' + f.op), store, []
    # ---------------------------------------------------------------- regions
    def merge(s, ins):
        if len(ins) == 1: return ins[0][1]
        keys = {}
        for c, x in ins: keys.update(dict.fromkeys(x))
        out = {}
        for k in keys:
            v = None
            vs = [(c, x[k]) for c, x in ins if k in x]
            v = vs[-1][1]
            for c, w in reversed(vs[:-1]):
                if w is not v: v = ite(c, w, v)
            out[k] = v
        return out
    def region(s, F, blocks, entry, store, header):
        """Execute the acyclic collapse of `blocks` from `entry`; returns exits [(target, cond, store)] and panics,
        with conditions relative to the entry.  Edges to `header` (the loop being analysed) are exits as well."""
        B = F.body
        inner = [h for h in B.loops if h in blocks and h != header and B.loops[h] <= blocks]
        inner = [h for h in inner if not any(h in B.loops[g] and g != h and B.loops[h] < B.loops[g] for g in inner)]
        rep = {}
        for h in inner:
            for x in B.loops[h]: rep[x] = h
        nodes = [x for x in B.rpo if x in blocks and rep.get(x, x) == x]
        nset = set(nodes)
        succ = {}
        for x in nodes:
            if x in inner:
                ys = []
                for z in B.loops[x]:
                    for y in B.succ[z]:
                        if y not in B.loops[x]: ys.append(y)
            else: ys = B.succ[x]
            succ[x] = [rep.get(y, y) for y in ys if y in blocks and y != header]
        # topological order
        order = []; seen = set()
        st = [(entry, iter(succ[entry]))]; seen.add(entry)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen: seen.add(y); st.append((y, iter(succ[y]))); break
            else: order.append(x); st.pop()
        order.reverse()
        pos = {x: i for i, x in enumerate(order)}
        pred = {x: [] for x in order}
        for x in order:
            for y in succ[x]:
                if y in pred and x not in pred[y]: pred[y].append(x)
        idom = {entry: entry}
        for x in order[1:]:
            d = None
            for p in pred[x]:
                if p in idom: d = p if d is None else inter(d, p, idom, pos)
            idom[x] = d
        rel = {entry: TRUE}
        incoming = {x: [] for x in order}
        incoming[entry] = [(None, TRUE, store)]
        exits = []; panics = []
        def chain(x, d):
            c = TRUE
            while x != d:
                c = b_and(rel[x], c); x = idom[x]
            return c
        for x in order:
            ins = incoming[x]
            if not ins: continue
            if x == entry: sto = store
            else:
                d = idom[x]
                ins2 = [(b_and(chain(p, d), c), sx) for p, c, sx in ins]
                ins2 = [(c, sx) for c, sx in ins2 if c is not FALSE]
                if not ins2: continue
                rel[x] = b_or(*[c for c, _ in ins2])
                sto = s.merge(ins2)
            s.panics = []
            if x in inner: outs = s.cfg_loop(F, x, B.loops[x], sto)
            else: outs = s.block(F, x, dict(sto))
            if s.panics:
                ch = chain(x, entry)
                for c, k, sp in s.panics:
                    c = b_and(ch, c)
                    if c is not FALSE: panics.append((c, k, sp))
            for tgt, c, sx in outs:
                if c is FALSE: continue
                y = rep.get(tgt, tgt) if tgt != 'ret' else tgt
                if tgt == 'ret' or tgt not in blocks or tgt == header: exits.append((tgt, b_and(chain(x, entry), c), sx))
                else: incoming[y].append((x, c, sx))
        return exits, panics
    def panic(s, cond, kind, span):
        if cond is not FALSE: s.panics.append((cond, kind, span))
    # ---------------------------------------------------------------- one block
    def block(s, F, x, st):
        s.stats['blocks'] += 1
        bl = F.body.blocks[x]
        for q in bl['st']:
            if q['k'] != 'assign': continue
            v = s.rvalue(F, st, q['r'], q)
            st = s.write(F, st, q['p'], v)
        t = bl['t']; k = t['k']
        if k in ('goto', 'drop'): return [(t['t'], TRUE, st)]
        if k == 'return': return [('ret', TRUE, st)]
        if k in ('unreachable', 'resume'): return []
        if k == 'assert':
            c = as_bool(s.operand(F, st, t['c']))
            bad = b_not(c) if t['e'] else c
            s.panic(bad, t['m'], t['s'])
            if bad is TRUE: return []
            l = lits_of(b_not(bad))
            if l and t['m'] == 'bounds': pass
            return [(t['t'], TRUE, st)]
        if k == 'switch':
            o = s.operand(F, st, t['o'])
            ty = s.p.ty(t['ty'])
            outs = []; rest = TRUE
            for val, b in t['ts']:
                v = int(val)
                if ty['k'] == 'bool': c = as_bool(o) if v else b_not(o)
                elif o.op == 'unk': c = unk('switch')
                else:
                    if ty['k'] == 'int':
                        bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[ty['name']]
                        if v >= 1 << (bits - 1): v -= 1 << bits
                    c = lift('sw%d' % v, lambda z, v=v: ieq(z, num(v)), o) if o.op == 'ite' else ieq(o, num(v))
                outs.append((b, c)); rest = b_and(rest, b_not(c))
            outs.append((t['ot'], rest))
            res = []
            for b, c in outs:
                if c is FALSE: continue
                l = lits_of(c) if c.op == 'ite' else ()
                sx = st if not l else {k2: refine(v2, l) for k2, v2 in st.items()}
                res.append((b, c, sx))
            return res
        if k == 'call':
            f = s.operand(F, st, t['f'])
            args = [s.operand(F, st, a) for a in t['a']]
            dty = t['d']['t']
            if f.op == 'fnref':
                fn = s.p.fnrefs[f.a[0]]
                s.cur_arg_tys = [s.opty(a) for a in t['a']]
                v, st, pans = s.call_ref(fn, args, st, t, dty)
            else:
                v, st, pans = s.call_value(f, args, st)
            for c, kk, sp in pans: s.panic(c, kk, sp)
            if t['t'] < 0: 
                s.panic(TRUE, 'panic', t['s']) if not pans or all(c is not TRUE for c, _, _ in pans) else None
                return []
            if v is DEAD: return []
            if s.p.ty(dty)['k'] == 'bool': v = as_bool(v)
            if s.p.ty(dty)['k'] == 'uint': s.mark_nat(v)
            st = s.write(F, st, t['d'], v)
            return [(t['t'], TRUE, st)]
        raise Unsupported('terminator ' + k)
    def mark_nat(s, v):
        for l in leaves(v): nat(l)
    def opty(s, o):
        if o['k'] in ('copy', 'move'): return o['p']['t']
        return o.get('t', -1)
    # ---------------------------------------------------------------- calls
    def call_ref(s, fn, args, st, term, dty):
        """fn: resolved fn reference of the MIR; returns (value, store, panics)"""
        span = term['s'] if term else None
        res = fn.get('res')
        s.stats['calls'].add(fn.get('respath') or fn['path'])
        r = s.models.try_model(fn, args, st, span, dty)
        if r is not None: return r
        if res in s.p.fns: return s.call_fn(s.p.fns[res], args, st)
        if fn.get('local') and fn['key'] in s.p.fns and not fn.get('trait'): return s.call_fn(s.p.fns[fn['key']], args, st)
        # dynamic dispatch on the shape of the receiver
        if fn.get('trait'):
            for a in args[:1]:
                v = s.read_ref(st, a) if a.op == 'mref' else a
                p = v.a[0] if v.op == 'struct' else None
                if p:
                    c = s.p.impls.get((fn['trait'], fn['name'], p), [])
                    if len(c) > 1 and len(args) > 1:
                        w = s.read_ref(st, args[1]) if args[1].op == 'mref' else args[1]
                        want = w.a[0] if w.op == 'struct' else None
                        c = [f for f in c if (s.p.tpath(f['traitargs'][1]) if len(f.get('traitargs', [])) > 1 else None) == want] or [f for f in c if want is None and s.p.ty(f['traitargs'][1])['k'] == 'param']
                    if len(c) == 1: return s.call_fn(c[0], args, st)
            d = [f for f in s.p.d['fns'] if f['key'] == fn['key'] and 'body' in f and f.get('traitdefault')]
            if d: return s.call_fn(d[0], args, st)
        s.stats['unmodelled'].add(fn.get('respath') or fn['path'])
        # an unknown callee may write through every &mut it receives
        st = dict(st)
        for a in args:
            for m in mrefs(a): st = s.write_ref(st, m, unk('written by ' + fn['path']))
        return unk('call ' + (fn.get('respath') or fn['path'])), st, []
    # ---------------------------------------------------------------- places
    def adt_names(s, path, variant=None):
        a = s.p.adts.get(path)
        if not a: return None
        v = a['variants'][0] if variant is None else [x for x in a['variants'] if x['name'] == variant][0]
        return [f['name'] for f in v['fields']]
    def elem(s, ti, e, var):
        """Path element for a field projection on type ti; None if transparent."""
        t = s.p.ty(ti)
        if t['k'] == 'adt':
            last = t['path'].split('::')[-1]
            if last in TRANSPARENT: return None
            if last in ('XY', 'Matrix', 'XYZ'): return 'Vec2#' + e['n']
            if var is not None: return 'V#%s#%s#%s' % (t['path'], var, e['n'])
            return t['path'] + '#' + e['n']
        if t['k'] == 'tuple': return '()/%d#%s' % (len(t['args']), e['n'])
        if t['k'] == 'closure': return 'closure#' + e['n']
        return '?#' + e['n']
    def get(s, v, el):
        if isinstance(el, T):
            if el.op == 'app' and el.a[0] == 'slice': return skip(take(v, el.a[2]), el.a[1])
            return at(v, el)
        if el.startswith('V#'):
            _, _, var, n = el.split('#'); return pay(v, var, n)
        base, n = el.rsplit('#', 1)
        if v.op == 'closure': return v.a[1][int(n)]
        if v.op == 'ite' and any(l.op == 'closure' for l in leaves(v)): return unk('closure merge')
        return proj(v, n)
    def set_(s, v, path, val):
        if not path: return val
        if v.op == 'unk': return v
        if v.op == 'ite':
            return ite_atom(v.a[0], s.set_(v.a[1], path, val), s.set_(v.a[2], path, val))
        el, rest = path[0], path[1:]
        if isinstance(el, T):
            if el.op == 'app' and el.a[0] == 'slice': return cat([take(v, el.a[1]), s.set_(s.get(v, el), rest, val), skip(v, el.a[2])])
            return upd(v, el, s.set_(at(v, el), rest, val))
        if el.startswith('V#'):
            _, ap, var, n = el.split('#')
            if v.op == 'enum':
                if v.a[1] != var: return v
                return mk('enum', v.a[0], v.a[1], v.a[2], tuple(s.set_(x, rest, val) if m == n else x for m, x in zip(v.a[2], v.a[3])))
            if v.op in OPAQUE:
                names = s.adt_names(ap, var) or [n]
                new = enum(ap, var, names, [s.set_(pay(v, var, m), rest, val) if m == n else pay(v, var, m) for m in names])
                return ite(isv(v, var), new, v)
            return unk('variant write')
        base, n = el.rsplit('#', 1)
        if v.op == 'struct':
            if n not in v.a[1]: return unk('field')
            return struct(v.a[0], v.a[1], [s.set_(x, rest, val) if m == n else x for m, x in zip(v.a[1], v.a[2])])
        if v.op == 'closure':
            fs = list(v.a[1]); fs[int(n)] = s.set_(fs[int(n)], rest, val); return mk('closure', v.a[0], tuple(fs))
        if v.op in OPAQUE:
            if base == 'Vec2': path_, names = 'Vec2', ('x', 'y')
            elif base.startswith('()/'): path_, names = '()', tuple(str(i) for i in range(int(base[3:])))
            else: path_, names = base, s.adt_names(base)
            if not names: return unk('field of ' + base)
            return struct(path_, names, [s.set_(proj(v, m), rest, val) if m == n else proj(v, m) for m in names])
        if v.op == 'uninit':
            if base.startswith('()/'): path_, names = '()', tuple(str(i) for i in range(int(base[3:])))
            else: path_, names = base, s.adt_names(base)
            return struct_raw(path_, names, [val if m == n else mk('uninit') for m in names])
        return unk('set ' + v.op)
    def read_root(s, st, root, path):
        v = st.get(root)
        if v is None: return unk('uninitialised %s' % (root,))
        for el in path: v = s.get(v, el)
        return v
    def read_ref(s, st, r):
        """value behind a mutable reference (or the value itself for a shared one)"""
        n = 0
        while r.op == 'mref' or (r.op == 'ite' and any(l.op == 'mref' for l in leaves(r))):
            if r.op == 'mref': r = s.read_root(st, r.a[0], r.a[1])
            else: r = lift_leaves(r, lambda l: s.read_root(st, l.a[0], l.a[1]) if l.op == 'mref' else l)
            n += 1
            if n > 8: return unk('reference depth')
        return r
    def deref1(s, st, r):
        if r.op == 'mref': return s.read_root(st, r.a[0], r.a[1])
        if r.op == 'ite' and any(l.op == 'mref' for l in leaves(r)):
            return lift_leaves(r, lambda l: s.read_root(st, l.a[0], l.a[1]) if l.op == 'mref' else l)
        return r
    def write_ref(s, st, r, val):
        if r.op == 'mref':
            root, path = r.a
            st = dict(st)
            st[root] = s.set_(st.get(root, unk('root')), path, val)
            return st
        if r.op == 'ite':
            st1 = s.write_ref(st, r.a[1], val); st2 = s.write_ref(st, r.a[2], val)
            return s.merge([(mknode(r.a[0], TRUE, FALSE), st1), (TRUE, st2)])
        if r.op == 'unk':
            return {k: (unk('write through unknown reference') if not isinstance(k[0], int) else v) for k, v in st.items()}
        return st
    def resolve(s, F, st, place):
        """('root', path) candidates for writing: returns a mref term (possibly a diagram)"""
        ti = F.body.b['locals'][place['l']]
        cur = mk('mref', (F.id, place['l']), ())
        var = None
        for e in place['p']:
            k = e['k']; t = s.p.ty(ti)
            if k == 'deref':
                v = s.deref1(st, cur)
                if v.op == 'mref' or (v.op == 'ite' and any(l.op == 'mref' for l in leaves(v))): cur = v
                ti = t['t'] if t['k'] in ('ref', 'ptr') else t['args'][0] if t['k'] == 'adt' and t.get('args') else -1
            elif k == 'field':
                el = s.elem(ti, e, var); var = None
                if el is not None: cur = ext(cur, el)
                ti = e['t']
            elif k == 'index':
                cur = ext(cur, st.get((F.id, e['l']), unk('index'))); ti = t.get('t', -1)
            elif k == 'cindex':
                i = num(e['o'])
                if e['fe']: i = sub(length(s.deref1(st, cur)), i)
                cur = ext(cur, i); ti = t.get('t', -1)
            elif k == 'downcast': var = e['n']
            else: return unk('projection ' + k)
        return cur
    def read(s, F, st, place):
        ti = F.body.b['locals'][place['l']]
        v = st.get((F.id, place['l']))
        if v is None: v = mk('uninit')
        var = None
        for e in place['p']:
            k = e['k']; t = s.p.ty(ti)
            if k == 'deref':
                v = s.deref1(st, v)
                ti = t['t'] if t['k'] in ('ref', 'ptr') else t['args'][0] if t['k'] == 'adt' and t.get('args') else -1
            elif k == 'field':
                el = s.elem(ti, e, var); var = None
                if el is not None: v = s.get(v, el)
                ti = e['t']
            elif k == 'index':
                v = at(v, st.get((F.id, e['l']), unk('index'))); ti = t.get('t', -1)
            elif k == 'cindex':
                i = num(e['o'])
                if e['fe']: i = sub(length(v), i)
                v = at(v, i); ti = t.get('t', -1)
            elif k == 'subslice':
                hi = sub(length(v), num(e['to'])) if e['fe'] else num(e['to'])
                v = skip(take(v, hi), num(e['from']))
            elif k == 'downcast': var = e['n']
            else: return unk('projection ' + k)
            if v.op == 'unk': return v
        tk = s.p.ty(place['t'])
        if tk['k'] == 'uint': s.mark_nat(v)
        elif tk['k'] == 'bool' and v.op not in ('ite', 'bool', 'unk', 'uninit'): v = as_bool(v)
        return v
    def write(s, F, st, place, v):
        st = dict(st)
        if not place['p']:
            st[(F.id, place['l'])] = v
            return st
        if (F.id, place['l']) not in st: st[(F.id, place['l'])] = mk('uninit')
        return s.write_ref(st, s.resolve(F, st, place), v)
    # ---------------------------------------------------------------- operands and rvalues
    def operand(s, F, st, o):
        if o['k'] in ('copy', 'move'): return s.read(F, st, o['p'])
        if o['k'] != 'const': return FALSE if o['k'] == 'rtcheck' else unk('operand')
        return s.const(F, o)
    def const(s, F, o):
        t = s.p.ty(o['t'])
        if 'fn' in o:
            f = o['fn']
            k = json.dumps([f['key'], f.get('res'), f.get('args')])
            s.p.fnrefs[k] = f
            return mk('fnref', k)
        if 'promoted' in o:
            fn = s.p.fns.get(o['powner'])
            if fn and o['promoted'] < len(fn['promoted']):
                b = fn['promoted'][o['promoted']]
                r, _, _ = s.call_body(s.body(fn, b), [], {})
                if r.op == 'mref': r = unk('promoted')
                return r
            return unk('promoted')
        if 'str' in o: return string(o['str'])
        if t['k'] == 'bool' and 'bits' in o: return boolc(int(o['bits']))
        if t['k'] == 'uint' and 'bits' in o: return num(int(o['bits']))
        if t['k'] == 'int' and 'bits' in o:
            v = int(o['bits']); n = 8 * o['size']
            return num(v - (1 << n) if v >= 1 << (n - 1) else v)
        if t['k'] == 'float' and 'bits' in o: return fbits(int(o['bits']), o['size'])
        if t['k'] == 'char' and 'bits' in o: return num(int(o['bits']))
        if t['k'] == 'tuple' and not t['args']: return UNIT
        if 'ckey' in o and o['ckey'] in s.p.fns:
            fn = s.p.fns[o['ckey']]
            r, _, _ = s.call_body(s.body(fn), [], {})
            return r
        if t['k'] == 'closure': return mk('closure', t['key'], ())
        if t['k'] == 'adt' and 'bits' in o:
            a = s.p.adts.get(t['path'])
            if a and a['kind'] == 'enum':
                i = int(o['bits'])
                if 'Ordering' in t['path']: i = {255: 0, 0: 1, 1: 2}.get(i, i)
                if i < len(a['variants']) and not a['variants'][i]['fields']: return enum(t['path'], a['variants'][i]['name'])
        if t['k'] == 'adt' and 'zst' in o: return struct(t['path'], (), ())
        if t['k'] == 'adt' and t['path'].endswith('Option') and False: return NONE
        if 'cpath' in o: return unk('constant ' + o['cpath'])
        return mk('app', 'const', mk('str', json.dumps(t)))
    def rvalue(s, F, st, r, q):
        k = r['k']
        if k == 'use': return s.operand(F, st, r['o'])
        if k == 'ref' or k == 'rawptr':
            if k == 'ref' and not r['mut']:
                return s.read(F, st, r['p'])
            m = s.resolve(F, st, r['p'])
            if m.op == 'mref' and False: pass
            return m
        if k == 'bin': return s.binop(r['op'], s.operand(F, st, r['a']), s.operand(F, st, r['b']), s.p.ty(s.opty(r['a'])))
        if k == 'un':
            v = s.operand(F, st, r['o'])
            if r['op'] == 'Not':
                if s.p.ty(s.opty(r['o']))['k'] == 'bool': return b_not(v)
                return app('bitnot', v)
            if r['op'] == 'Neg': return neg(v) if v.op != 'unk' else v
            if r['op'] == 'PtrMetadata': return length(s.read_ref(st, v))
            return unk('unop ' + r['op'])
        if k == 'cast':
            v = s.operand(F, st, r['o'])
            ck = r['ck']
            if ck.startswith('IntToFloat') or ck.startswith('IntToInt'):
                if s.p.ty(s.opty(r['o']))['k'] == 'bool': return ite(v, ONE, ZERO)
                if v.op == 'unk' : return v
                if s.words and ck.startswith('IntToInt'):
                    l0, h0 = word(s.p.ty(s.opty(r['o']))) or (0, 0); l1, h1 = word(s.p.ty(r['t'])) or (0, 0)
                    if l0 < l1 or h0 > h1: return wrap(v, l1, h1)
                elif ck.startswith('IntToInt'):      # a count or an index cut down to a few bits
                    w0, w1 = word(s.p.ty(s.opty(r['o']))), s.lims(s.p.ty(r['t']))
                    if w0 and w1 and w0[1] >= (1 << 31) - 1: return wrap(v, *w1)
                return v
            if ck.startswith('FloatToInt'): return nat(app('trunc', v)) if v.op != 'unk' else v
            return v
        if k == 'discr': return s.discr(s.read(F, st, r['p']), s.p.ty(r['p']['t']))
        if k == 'repeat': return lit([s.operand(F, st, r['o'])] * r['n']) if 0 <= r['n'] <= 64 else unk('repeat')
        if k == 'agg':
            ops = [s.operand(F, st, o) for o in r['ops']]
            ak = r['ak']
            if ak == 'tuple': return tup(*ops)
            if ak == 'array': return lit(ops)
            if ak == 'closure': return mk('closure', r['key'], tuple(ops))
            if ak == 'adt':
                a = s.p.adts.get(r['path'])
                if r['path'].split('::')[-1] in TRANSPARENT: return ops[0]
                if a and a['kind'] == 'enum': return enum(r['path'], r['vn'], r['fields'], ops)
                return struct(r['path'], r['fields'], ops)
            return unk('aggregate ' + ak)
        return unk('rvalue ' + k)
    def discr(s, v, t):
        if t['k'] != 'adt': return unk('discriminant')
        vs = [x['name'] for x in s.p.adts[t['path']]['variants']] if t['path'] in s.p.adts else None
        if not vs: return unk('discriminant of ' + t['path'])
        shift = -1 if t['path'].endswith('cmp::Ordering') else 0
        def f(x):
            if x.op == 'unk' or x is DEAD: return x
            if x.op == 'enum': return num(vs.index(x.a[1]) + shift)
            r = num(len(vs) - 1 + shift)
            for i in range(len(vs) - 2, -1, -1): r = ite(isv(x, vs[i]), num(i + shift), r)
            return r
        return undead(lift('discr' + t['path'], f, v))
    def lims(s, t):
        """the values of an integer type, where they matter: machine words if asked for, else those of 8 and 16 bits"""
        w = word(t)
        if s.words or w is None: return w
        if t['name'] in ('u8', 'u16'): return (0, 3) if s.p.d.get('small_words') else w
        return w if t['name'] in ('i8', 'i16') else None
    def binop(s, op, a, b, t):
        if a.op == 'unk': return a
        if b.op == 'unk': return b
        if a.op == 'uninit' or b.op == 'uninit': return unk('uninitialised operand')
        k = t['k']
        if op.endswith('WithOverflow'):
            r = s.binop(op[:-12], a, b, t)
            ov = FALSE
            if op.startswith('Sub') and k == 'uint': ov = ilt(a, b)
            elif s.lims(t) and r.op != 'unk': ov = ilt(num(s.lims(t)[1]), r) if k == 'uint' else outside(r, t)
            return tup(r, ov)
        if op.endswith('Unchecked'): op = op[:-9]
        if k == 'float':
            m = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': div, 'Lt': lt, 'Le': le, 'Eq': eq}
            if op in m: return m[op](a, b)
            if op == 'Gt': return lt(b, a)
            if op == 'Ge': return le(b, a)
            if op == 'Ne': return b_not(eq(a, b))
            if op == 'Rem': return app('frem', a, b)
            return unk('float ' + op)
        if k in ('int', 'uint', 'char'):
            m = {'Add': add, 'Sub': sub, 'Mul': mul, 'Lt': ilt, 'Le': ile, 'Eq': ieq, 'Ne': ine}
            if op in m: return m[op](a, b)
            if op == 'Gt': return ilt(b, a)
            if op == 'Ge': return ile(b, a)
            if op == 'Div': return app('idiv', a, b)
            if op == 'Rem': return app('irem', a, b)
            if op == 'Cmp': return s.models.cmp_int(a, b)
            if op == 'Shl':
                r = mul(a, app('pow', num(2), b))
                return wrap(r, *word(t)) if s.words and word(t) else r
            if op == 'Shr': return app('idiv', a, app('pow', num(2), b))
            if op in ('BitAnd',) and is_const(b) and cval(b) == 1: return app('irem', a, num(2))
            return app('int' + op, a, b)
        if k == 'bool':
            a, b = as_bool(a), as_bool(b)
            m = {'BitAnd': b_and, 'BitOr': b_or, 'BitXor': b_xor, 'Eq': b_iff, 'Ne': b_xor}
            if op in m: return m[op](a, b)
        return unk('binop %s %s' % (op, k))
    # ---------------------------------------------------------------- loops
    def cfg_loop(s, F, header, blocks, store):
        B = F.body
        live = B.live[header] | B.mutb
        st0 = {k: v for k, v in store.items() if k[0] != F.id or k[1] in live}
        def step(st):
            save = s.panics
            s.panics = []
            ex, pans = s.region(F, blocks, header, st, header)
            s.panics = save
            return [('cont' if t == header else ('x', t), c, x) for t, c, x in ex], pans
        where = B.blocks[header]['t'].get('s')
        return [(t[1], c, x) for t, c, x in s.loop(step, st0, (B.fn['path'], where))]
    def loop(s, step, st0, where):
        """Summarise a loop.  step(store) -> ([(tag, cond, store)], panics); tag 'cont' repeats."""
        # ---- 1. which leaves of the store change
        entry = dict(st0)
        mod = {}        # (key, path) -> fresh variable
        for _round in range(40):
            cur, phis = s.phi_store(entry, mod)
            exits, pans = step(cur)
            conts = [(c, x) for t, c, x in exits if t == 'cont']
            if not conts:
                for c, k, sp in pans: s.panic(c, k, sp)
                return [(t, c, x) for t, c, x in exits]   # body never repeats
            cc = b_or(*[c for c, _ in conts])
            nxt = s.merge(conts)
            lits = lits_of(cc)
            nxt = {k: s.like(entry.get(k), s.refined(cur.get(k), v, lits)) for k, v in nxt.items()}
            new = {}
            for key in list(entry):
                if key not in nxt: continue
                s.diff(entry, key, (), s.leafval(cur, key), nxt[key], new, mod)
            add_ = [p for p in new if p not in mod]
            if not add_: break
            for p in add_:
                for q in list(mod):
                    if q[0] == p[0] and q[1][:len(p[1])] == p[1]: del mod[q]
                mod[p] = None
                # sort
                iv = s.leafget(entry[p[0]], p[1])
                srt = s.sort_of(iv)
                mod[p] = fresh(srt)
        else:
            return s.loop_unknown(entry, mod, exits, 'no fixpoint')
        rel = []
        # counters that start at 0 or above and only ever grow are non-negative
        grow = []
        for p_, v in mod.items():
            if v.a[-1] != 'num': continue
            b = s.leafget(nxt[p_[0]], p_[1])
            if b.op == 'ite' and ile(ZERO, s.leafget(entry[p_[0]], p_[1])) is TRUE:
                ds = [sub(l, v) for l in leaves(b)]
                if all(is_const(d) and cval(d) >= 0 and cval(d).denominator == 1 for d in ds): grow.append(p_)
        if grow:
            for p_ in grow: mod[p_] = fresh('nat')
            cur, phis = s.phi_store(entry, mod)
            exits, pans = step(cur)
            conts = [(c, x) for t, c, x in exits if t == 'cont']
            if not conts: return s.loop_unknown(entry, mod, exits, 'no continuation')
            cc = b_or(*[c for c, _ in conts]); nxt = s.merge(conts); lits = lits_of(cc)
            nxt = {k: s.like(entry.get(k), s.refined(cur.get(k), v, lits)) for k, v in nxt.items()}
        twins = []
        r = s.equal_lengths(entry, mod, step)
        if r: exits, pans, cc, nxt, twins, cur = r
        if REL:
            r = s.loop_invariants(entry, mod, step, cur)
            if r: exits, pans, cc, nxt, rel = r
        keys = list(mod); vs = [mod[p] for p in keys]
        inits = [s.leafget(entry[p[0]], p[1]) for p in keys]
        nexts = [s.leafget(nxt[p[0]], p[1]) for p in keys]
        vset = frozenset(vs)
        # ---- 2. counters
        counters = {}
        for i, v in enumerate(vs):
            if nexts[i].op == 'unk': continue
            if v.a[-1] in ('nat', 'num', 'any') and nexts[i].op == 'num':
                d = sub(nexts[i], v)
                if d is ONE or (is_const(d) and cval(d) == -1): counters[i] = d
        def transfer(vals):
            """the invariants of the loop state hold of its final value"""
            for v, q in twins:
                a, b = vals.get(v), vals.get(q)
                if a is not None and b is not None and a.op == 'rec' and b.op == 'rec' and a is not b: LENREP[a] = b
            for v, f, q in rel:
                a = vals.get(v); b = vals.get(q, q)
                if a is not None and a.op == 'rec':
                    if f is None: POSINT.add(length(a))
                    else: REL[(a, f)] = b
        n = None
        if counters:
            k = fresh('nat')
            m = {vs[i]: add(inits[i], mul(d, k)) for i, d in counters.items()}
            c2 = subst(cc, m)
            n = s.trip(c2, k, vset)
        info = {'where': where, 'kind': None, 'state': len(vs)}
        s.loopinfo[(where[0], str(where[1]))] = info
        s.loop_seen(info, n, cc, vs, inits, nexts, keys)
        if n is not None:
            k = fresh('nat')
            BOUND[k] = n
            # ---- 3. re-run with the counters in closed form
            sub_ = {vs[i]: add(inits[i], mul(d, k)) for i, d in counters.items()}
            ui = [i for i in range(len(vs)) if i not in counters]
            mod2 = {keys[i]: vs[i] for i in ui}
            curA = s.phi_store2(entry, keys, [sub_.get(v, v) for v in vs])
            exA, panA = step(curA)
            conts = [(c, x) for t, c, x in exA if t == 'cont']
            if not conts: return s.loop_unknown(entry, mod, exits, 'no continuation')
            contA = b_or(*[c for c, _ in conts])
            nxA = s.merge(conts)
            lits = lits_of(contA)
            nxA = {k_: s.like(entry.get(k_), v) for k_, v in nxA.items()}
            nextsA = {i: refine(s.leafget(nxA[keys[i][0]], keys[i][1]), lits) for i in ui}
            brk = [(t, c, x) for t, c, x in exA if t != 'cont']
            mN = {vs[i]: add(inits[i], mul(d, n)) for i, d in counters.items()}
            curB = s.phi_store2(entry, keys, [mN.get(v, v) for v in vs])
            exB, panB = step(curB)
            if any(t == 'cont' for t, c, x in exB): return s.loop_unknown(entry, mod, exits, 'main exit')
            # ---- 4. solve the remaining state
            uset = frozenset(vs[i] for i in ui)
            acc = s.solve({i: (vs[i], inits[i], nextsA[i]) for i in ui}, k, n, uset)
            unsolved = [i for i in ui if i not in acc]
            def amap(mterm):
                r = {}
                for i in acc: r[vs[i]] = acc[i](mterm)
                return r
            # replace the solved state by its closed form at iteration k
            mk_ = amap(k)
            brk = [(t, subst(c, mk_), x) for t, c, x in brk]
            Bc = b_or(*[c for _, c, _ in brk]) if brk else FALSE
            rset = frozenset(vs[i] for i in unsolved)
            if not (Bc.free & rset):
                info['kind'] = 'closed' if not unsolved else 'recurrence(%d) with known trip count' % len(unsolved)
                uv = [vs[i] for i in unsolved]; ui_ = [inits[i] for i in unsolved]
                un = [subst(nextsA[i], mk_) for i in unsolved]
                def at_iter(mterm):
                    r = amap(mterm)
                    if unsolved:
                        vals = rec_values([ZERO] + ui_, [k] + uv, [add(k, ONE)] + un, ilt_raw(k, mterm), range(1, len(uv) + 1))
                        for v, w in zip(uv, vals): r[v] = w
                        transfer(r)
                    return r
                outs = []
                if Bc is FALSE: found = FALSE
                else: found = exists(n, k, Bc)
                res = []
                mm = at_iter(n)
                for t, c, x in exB:
                    c = b_and(b_not(found), subst(c, mm))
                    res.append((t, c, s.substore(x, mm)))
                if found is not FALSE:
                    fi = first(n, k, Bc)
                    mf = at_iter(fi); mf[k] = fi
                    # at the first hit one of the (mutually exclusive) exit conditions holds
                    cs = [subst(c, mf) for _, c, _ in brk]
                    for j, (t, c, x) in enumerate(brk):
                        cj = cs[j]
                        x = {kk: constrain_v(v, cj) for kk, v in s.substore(x, mf).items()}
                        if j == len(brk) - 1: cj = b_not(b_or(*cs[:-1]))
                        c = b_and(found, cj)
                        if c is not FALSE: res.append((t, c, x))
                # panics
                if panA:
                    noearlier = TRUE if found is FALSE else b_not(red(exists, k, k, Bc))
                    for c, kd, sp in panA:
                        c = b_and(subst(c, mk_), noearlier)
                        if c.free & rset:
                            p = fresh('bool'); pb = as_bool(p)
                            rv = rec_value([ZERO, FALSE] + ui_, [k, p] + uv, [add(k, ONE), b_or(pb, c)] + un, ilt_raw(k, n), 1)
                            s.panic(as_bool(rv), kd, sp)
                        else: s.panic(exists(n, k, c), kd, sp)
                for c, kd, sp in panB: s.panic(b_and(b_not(found), subst(c, mm)), kd, sp)
                return [r for r in res if r[1] is not FALSE]
            # ---- 5. state-dependent early exit: recurrence with the iteration index
            info['kind'] = 'recurrence(%d) with early exit' % len(unsolved)
            uv = [k] + [vs[i] for i in unsolved]; ui_ = [ZERO] + [inits[i] for i in unsolved]
            un = [add(k, ONE)] + [subst(nextsA[i], mk_) for i in unsolved]
            cont = b_and(ilt_raw(k, n), b_not(Bc))
            vals = rec_values(ui_, uv, un, cont, range(len(uv)))
            mm = dict(zip(uv, vals)); kf = vals[0]
            transfer(mm)
            mm.update({v: subst(w, mm) for v, w in amap(k).items()})
            inr = ilt(kf, n)
            res = []
            for t, c, x in exB:
                res.append((t, b_and(b_not(inr), subst(c, mm)), s.substore(x, mm)))
            for t, c, x in brk:
                res.append((t, b_and(inr, subst(c, mm)), s.substore(x, mm)))
            for c, kd, sp in panA:
                p = fresh('bool'); pb = as_bool(p); c = subst(c, mk_)
                rv = rec_value([FALSE] + ui_, [p] + uv, [b_or(pb, c)] + un, cont, 0)
                s.panic(b_or(as_bool(rv), b_and(inr, subst(c, mm))), kd, sp)
            for c, kd, sp in panB: s.panic(b_and(b_not(inr), subst(c, mm)), kd, sp)
            return [r for r in res if r[1] is not FALSE]
        # ---- 6. general recurrence
        info['kind'] = 'recurrence(%d)' % len(vs)
        vals = rec_values(inits, vs, nexts, cc, range(len(vs)))
        mm = dict(zip(vs, vals))
        transfer(mm)
        res = [(t, subst(c, mm), s.substore(x, mm)) for t, c, x in exits if t != 'cont']
        for c, kd, sp in pans:
            p = fresh('bool'); pb = as_bool(p)
            rv = rec_value([FALSE] + inits, [p] + vs, [b_or(pb, c)] + nexts, cc, 0)
            s.panic(b_or(as_bool(rv), subst(c, mm)), kd, sp)
        return [r for r in res if r[1] is not FALSE]
    def loop_seen(s, info, n, cc, vs, inits, nexts, keys): pass
    def equal_lengths(s, entry, mod, step):
        """Lists of the loop state that have equal lengths on entry, and keep them in every iteration."""
        seqs = [p for p, v in mod.items() if v.a[-1] == 'any' and s.leafget(entry[p[0]], p[1]).op in SEQISH]
        lens = {}
        for p in seqs:
            n = length(s.leafget(entry[p[0]], p[1]))
            if not n.unk: lens.setdefault(n, []).append(p)
        groups = [g for n, g in lens.items() if len(g) > 1 and not is_const(n)]
        if not groups: return None
        rep = {p: g[0] for g in groups for p in g[1:]}
        while rep:
            for p in seqs: mod[p] = fresh('any')
            mine = {mod[p]: mod[q] for p, q in rep.items()}
            LENREP.update(mine)
            cur, _ = s.phi_store(entry, mod)
            exits, pans = step(cur)
            conts = [(c, x) for t, c, x in exits if t == 'cont']
            if not conts: break
            cc = b_or(*[c for c, _ in conts]); nxt = s.merge(conts)
            lits = lits_of(cc)
            nxt = {k: s.like(entry.get(k), s.refined(cur.get(k), v, lits)) for k, v in nxt.items()}
            ln = lambda p: length(s.leafget(nxt[p[0]], p[1]))
            bad = [p for p, q in rep.items() if ln(p) is not ln(q)]
            if not bad: return exits, pans, cc, nxt, [(mod[p], mod[q]) for p, q in rep.items()], cur
            for v in mine: del LENREP[v]
            for p in bad: del rep[p]
        for p in seqs: mod[p] = fresh('any')
        cur, _ = s.phi_store(entry, mod)
        exits, pans = step(cur)
        conts = [(c, x) for t, c, x in exits if t == 'cont']
        cc = b_or(*[c for c, _ in conts]); nxt = s.merge(conts)
        lits = lits_of(cc)
        return exits, pans, cc, {k: s.like(entry.get(k), s.refined(cur.get(k), v, lits)) for k, v in nxt.items()}, [], cur
    def loop_invariants(s, entry, mod, step, cur):
        """Index invariants of the loop state by elimination: candidates that hold on entry are assumed, and dropped
        until the body preserves all that remain."""
        fields = sorted({f for _, f in REL})
        seqs = [p for p, v in mod.items() if v.a[-1] == 'any']
        fixed = [t for t in set(REL.values()) if t.op in ('sym', 'fresh', 'rec', 'bv', 'proj')]
        cand = {}
        for p in seqs:
            iv = s.leafget(entry[p[0]], p[1])
            for f in fields:
                if not elements(iv, lambda x: proj(x, f)): continue
                for q in seqs + fixed:
                    if q is p: continue
                    qv = s.leafget(entry[q[0]], q[1]) if isinstance(q, tuple) else q
                    if qv.op in SEQISH and index_of(iv, f, qv): cand.setdefault((p, f), []).append(q)
        for p in seqs:
            iv = s.leafget(entry[p[0]], p[1])
            if iv.op in SEQISH and all(l.op in ('cat', 'lit') for l in leaves(iv)) and ile(ONE, length(iv)) is TRUE: cand[(p, None)] = [None]
        if not cand: return None
        while cand:
            for p in list(mod):
                if mod[p].a[-1] == 'any': mod[p] = fresh('any')
            val = lambda q: mod[q] if isinstance(q, tuple) else q
            mine = {(mod[p], f): val(qs[0]) for (p, f), qs in cand.items() if f is not None}
            for p, f in cand:
                if f is None: POSINT.add(length(mod[p]))
            REL.update(mine)
            cur, _ = s.phi_store(entry, mod)
            exits, pans = step(cur)
            conts = [(c, x) for t, c, x in exits if t == 'cont']
            if not conts: return None
            cc = b_or(*[c for c, _ in conts]); nxt = s.merge(conts)
            lits = lits_of(cc)
            nxt = {k: s.like(entry.get(k), s.refined(cur.get(k), v, lits)) for k, v in nxt.items()}
            nv = lambda q: s.leafget(nxt[q[0]], q[1]) if isinstance(q, tuple) else q
            bad = [(p, f) for (p, f), qs in cand.items() if not (ile(ONE, length(nv(p))) is TRUE if f is None else index_of(nv(p), f, nv(qs[0])))]
            if not bad: return exits, pans, cc, nxt, [(mod[p], f, None if f is None else val(qs[0])) for (p, f), qs in cand.items()]
            for k_ in mine: del REL[k_]
            for p, f in cand:
                if f is None: POSINT.discard(length(mod[p]))
            for k_ in bad:
                cand[k_] = cand[k_][1:]
                if not cand[k_]: del cand[k_]
        for p in list(mod):
            if mod[p].a[-1] == 'any': mod[p] = fresh('any')
        cur, _ = s.phi_store(entry, mod)
        exits, pans = step(cur)
        conts = [(c, x) for t, c, x in exits if t == 'cont']
        if not conts: return None
        cc = b_or(*[c for c, _ in conts]); nxt = s.merge(conts)
        lits = lits_of(cc)
        return exits, pans, cc, {k: s.like(entry.get(k), s.refined(cur.get(k), v, lits)) for k, v in nxt.items()}, []
    def loop_unknown(s, entry, mod, exits, why):
        s.stats['unmodelled'].add('loop: ' + why)
        m = {v: unk('loop: ' + why) for v in mod.values() if v is not None}
        return [(t, c, {k: (unk('loop: ' + why) if any(p[0] == k for p in mod) else v) for k, v in x.items()}) for t, c, x in exits if t != 'cont']
    def substore(s, x, m): return {k: subst(v, m) for k, v in x.items()}
    def sort_of(s, v):
        ls = leaves(v)
        if all(l.op == 'bool' for l in ls): return 'bool'
        if v.op == 'ite' and all(l.op == 'bool' for l in ls): return 'bool'
        if all(l.op == 'num' or nonneg_var(l) for l in ls):
            return 'num'
        return 'any'
    # leaf paths: child indices of struct / iter / map / closure
    def refined(s, a, b, lits):
        """b simplified under the condition of the repetition, except for what one iteration left as it was (a)"""
        if a is b: return b
        if a is not None and a.op == b.op and a.op in ('struct', 'iter', 'map', 'closure') and len(s.kids(a)) == len(s.kids(b)):
            for i, (x, y) in enumerate(zip(s.kids(a), s.kids(b))):
                z = s.refined(x, y, lits)
                if z is not y: b = s.leafset(b, (i,), z)
            return b
        r = refine(b, lits)
        if a is not None and a.op not in ('num', 'bool') and refine(a, lits) is r: return a
        return r
    def like(s, a, b):
        """b with the struct literals of a where it is an opaque value of the same type"""
        if a is None or a is b or a.op != 'struct': return b
        if b.op in OPAQUE and a.a[1]: b = struct_raw(a.a[0], a.a[1], [proj(b, f) for f in a.a[1]])
        if b.op == 'struct' and a.a[1] == b.a[1]: return struct_raw(b.a[0], b.a[1], [s.like(x, y) for x, y in zip(a.a[2], b.a[2])])
        return b
    def leafget(s, t, p):
        for i in p: t = s.kids(t)[i]
        return t
    def kids(s, t):
        if t.op == 'struct': return t.a[2]
        if t.op == 'iter': return t.a
        if t.op == 'map': return t.a
        if t.op == 'closure': return t.a[1]
        return ()
    def leafset(s, t, p, v):
        if not p: return v
        ks = list(s.kids(t)); ks[p[0]] = s.leafset(ks[p[0]], p[1:], v)
        if t.op == 'struct': return struct_raw(t.a[0], t.a[1], ks)
        if t.op in ('iter', 'map'): return mk(t.op, *ks)
        return mk('closure', t.a[0], tuple(ks))
    def leafval(s, cur, key): return cur[key]
    def phi_store(s, entry, mod):
        cur = dict(entry)
        for (key, p), v in mod.items():
            cur[key] = s.leafset(cur[key], p, as_bool(v) if v.a[-1] == 'bool' else v)
        return cur, None
    def phi_store2(s, entry, keys, vals):
        cur = dict(entry)
        for (key, p), v in zip(keys, vals):
            if v.op == 'fresh' and v.a[-1] == 'bool': v = as_bool(v)
            cur[key] = s.leafset(cur[key], p, v)
        return cur
    def diff(s, entry, key, p, a, b, out, mod):
        """leaf paths where the value b after one iteration differs from the value a before it"""
        if a is b: return
        if (key, p) in mod: out[(key, p)] = True; return
        if a.op == b.op and a.op in ('struct', 'iter', 'map', 'closure') and len(s.kids(a)) == len(s.kids(b)) and (a.op != 'struct' or a.a[1] == b.a[1]) and (a.op != 'closure' or a.a[0] == b.a[0]) and s.kids(a):
            for i, (x, y) in enumerate(zip(s.kids(a), s.kids(b))): s.diff(entry, key, p + (i,), x, y, out, mod)
            return
        if b.op == 'struct' and a.op in OPAQUE and b.a[1] and not any(q[0] == key and q[1][:len(p)] == p for q in mod):
            # eta-expand the initial value
            iv = s.leafget(entry[key], p)
            if iv.op in OPAQUE:
                ex = struct_raw(b.a[0], b.a[1], [proj(iv, f) for f in b.a[1]])
                entry[key] = s.leafset(entry[key], p, ex)
                for i, f in enumerate(b.a[1]): s.diff(entry, key, p + (i,), proj(a, f), b.a[2][i], out, mod)
                return
        out[(key, p)] = True
    def trip(s, cc, k, vset):
        """trip count n such that the loop repeats only while k < n (n independent of the state)"""
        cands = []
        seen = set(); st = [cc]
        while st:
            x = st.pop()
            if x.op != 'ite' or x in seen: continue
            seen.add(x)
            kd, q, c, _ = x.a[0].a
            if kd == 'le' and k in q.free and is_poly(q):
                d = dict(rpoly(q)); co = d.pop(((k, 1),), None)
                if co in (1, -1) and not any((v.free & vset) or k in v.free for m in d for v, _ in m):
                    cands.append((x.a[0], co, rat(pmake(d)), c))
            st += [x.a[1], x.a[2]]
        for at_, co, rest, c in cands:
            if co == 1:   # k + rest <= c   <=>  k < c + 1 - rest
                if restrict(cc, at_, False) is FALSE:
                    return s.pos(sub(num(c + 1), rest))
            else:         # -k + rest <= c  is  k >= rest - c ; repeats while k < rest - c
                if restrict(cc, at_, True) is FALSE:
                    return s.pos(sub(rest, num(c)))
        return None
    def pos(s, x):
        """max(x, 0)"""
        return ite(ile(ZERO, x), x, ZERO)
    # ---------------------------------------------------------------- closed forms
    def solve(s, prob, k, n, uset):
        acc = {}
        todo = dict(prob)
        # minima first (their companions refer to the running minimum)
        mins = {}
        for i, (v, init, nx) in list(todo.items()):
            r = s.find_min(v, nx, k, uset)
            if r is not None:
                e, = r
                mins[i] = (v, e, init)
                acc[i] = (lambda m, e=e, init=init: ite(ilt(ZERO, m), fmin(init, red(minv, m, k, e)) if init is not HUGE else red(minv, m, k, e), init))
                del todo[i]
        for i, (v, init, nx) in list(todo.items()):
            for j, (mv, e, minit) in mins.items():
                for strict, cond in ((True, lt(e, mv)), (False, le(e, mv)), (False, b_not(lt(mv, e))), (True, b_not(le(mv, e)))):
                    val = None
                    hit = lift_val(nx, v, cond)
                    if hit is not None and not (hit.free & uset):
                        def f(m, e=e, minit=minit, val=hit, init=init, strict=strict):
                            M = red(minv, m, k, e)
                            imp = b_and(ilt(ZERO, m), lt(M, minit) if strict else le(M, minit))
                            ix = red(first if strict else last, m, k, le(e, M))
                            return ite(imp, subst(val, {k: ix}), init)
                        acc[i] = f; del todo[i]; break
                if i in acc: break
        prog = True
        while prog and todo:
            prog = False
            for i, (v, init, nx) in list(todo.items()):
                mk_ = {prob[j][0]: acc[j](k) for j in acc if prob[j][0] in nx.free}
                rest = frozenset(prob[j][0] for j in todo)
                if nx.free & frozenset(mk_): nx = subst(nx, mk_)
                r = s.solve1(v, init, nx, k, n, rest)
                if r is not None: acc[i] = r; del todo[i]; prog = True
        return acc
    def find_min(s, v, nx, k, uset):
        if v.a[-1] == 'bool' or nx.op != 'ite': return None
        for e in leaves(nx):
            if e is v or (e.free & uset): continue
            if e.op in ('struct', 'enum', 'lit', 'cat', 'bool', 'unk'): continue
            for w in (fmin(v, e), fmin(e, v), imin(v, e), imin(e, v)):
                if w is nx: return (e,)
        return None
    def solve1(s, v, init, nx, k, n, rest):
        if nx.unk: return None
        fr = nx.free & rest
        if not fr:
            if nx is init: return lambda m: init
            if k not in nx.free: return lambda m: ite(ilt(ZERO, m), nx, init)
            return lambda m: ite(ilt(ZERO, m), subst(nx, {k: sub(m, ONE)}), init)
        if fr != {v}: return None
        if v.a[-1] == 'bool':
            t = subst(nx, {v: TRUE}); f = subst(nx, {v: FALSE})
            if (t.free | f.free) & rest: return None
            if t is TRUE: return lambda m: b_or(init, red(exists, m, k, f))
            if f is FALSE: return lambda m: b_and(init, b_not(red(exists, m, k, b_not(t))))
            return None
        ls = leaves(nx)
        kinds = {l.op for l in ls if l is not v}
        numeric = all(l.op == 'num' or l is v or nonneg_var(l) for l in ls) or all(l.op not in ('cat', 'upd', 'struct', 'enum', 'lit', 'bool', 'fm', 'rec', 'iter', 'map', 'closure') for l in ls)
        if numeric:
            d = sub(nx, v)
            if not (d.free & rest): return lambda m: add(init, red(sum_, m, k, d))
            try: e = subst(nx, {v: ONE})
            except Exception: e = None
            if e is not None and not (e.free & rest) and mul(v, e) is nx: return lambda m: mul(init, red(prod_, m, k, e))
        if all(l is v or (l.op == 'cat' and l.a[0][0] is v and not any(x.free & rest for x in l.a[0][1:])) for l in ls):
            e = lift_leaves(nx, lambda l: NIL if l is v else cat(list(l.a[0][1:])))
            if not (e.free & rest): return lambda m: cat([init, red(fm, m, k, e)])
        r = s.solve_map(v, init, nx, k, n, rest)
        if r is not None: return r
        # conditional overwrite
        c = lift_leaves(nx, lambda l: FALSE if l is v else TRUE)
        if not (c.free & rest):
            val = undead(lift_leaves(nx, lambda l: DEAD if l is v else l))
            if not (val.free & rest):
                if k not in val.free: return lambda m: ite(red(exists, m, k, c), val, init)
                return lambda m: ite(red(exists, m, k, c), subst(val, {k: red(last, m, k, c)}), init)
        return None
    def solve_map(s, v, init, nx, k, n, rest):
        """every iteration rewrites element k from element k"""
        ok = True
        def body(l):
            nonlocal ok
            if l is v: return at(v, k)
            if l.op == 'upd' and l.a[1] is k:
                if l.a[0] is v: return l.a[2]
                return l.a[2] if l.a[0].op == 'upd' and l.a[0].a[1] is k and l.a[0].a[0] is v else bad()
            return bad()
        def bad():
            nonlocal ok; ok = False; return NIL
        g = lift_leaves(nx, body)
        if not ok: return None
        x = fresh('any')
        g2 = replace_at(g, v, k, x)
        if g2 is None or (g2.free & rest): return None
        L = length(init)
        def f(m):
            j = fresh('nat'); BOUND[j] = L
            e = subst(subst(g2, {k: j}), {x: at(init, j)})
            return fm(L, j, lit([ite(ilt(j, m), e, at(init, j))]))
        return f

def red(op, m, k, e):
    """reduction over a fresh copy of the index k (m may mention k)"""
    j = fresh('nat'); BOUND[j] = m
    return op(m, j, subst(e, {k: j}))
def ilt_raw(a, b):
    """a < b without the index bound of a (which is what this condition establishes)"""
    sv = BOUND.pop(a, None)
    try:
        TM._lift.pop(('ile', add(a, ONE), b), None)
        r = ile(add(a, ONE), b)
        TM._lift.pop(('ile', add(a, ONE), b), None)
    finally:
        if sv is not None: BOUND[a] = sv
    return r
def lift_leaves(t, f):
    memo = {}
    def go(x):
        if x.op != 'ite': return f(x)
        r = memo.get(x)
        if r is None: r = memo[x] = ite_atom(x.a[0], go(x.a[1]), go(x.a[2]))
        return r
    return go(t)
def lift_val(nx, v, cond):
    """If nx == ite(cond, val, v) with val not containing v: return val."""
    ls = [l for l in leaves(nx) if l is not v]
    if len(ls) == 1:
        if ite(cond, ls[0], v) is nx: return ls[0]
    return None
def ext(m, el):
    if m.op == 'mref': return mk('mref', m.a[0], m.a[1] + (el,))
    if m.op == 'ite': return ite_atom(m.a[0], ext(m.a[1], el), ext(m.a[2], el))
    return m
def mrefs(t):
    out = []; seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'mref': out.append(x); return
        from terms import _kids
        for y in _kids(x.op, x.a): go(y)
    go(t); return out
