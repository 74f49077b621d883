"""C40: every library call terminates.

Per loop of every function reachable from the public API one of
  - iteration rule: every cycle takes the next item of a finite iterator that nothing else touches, and leaves when there
    is none;
  - ranking: a counter with a trip count, or an integer / length that is bounded below and strictly decreases whenever the
    loop repeats (decided on the canonical form of the loop's transfer function);
  - no exit: a cycle that cannot be left is a violation; a loop whose state repeats for some admissible argument is one too.
Recursion, consumption of endless iterators and blocking calls are checked on the call graph."""
from core import *
import json
import geometry as GE, graph as GR
from effects import Flow
from interp import Body

FINITE = {'Range', 'RangeInclusive', 'Iter', 'IterMut', 'IntoIter', 'Drain', 'Windows', 'Chunks', 'ChunksExact', 'ChunksMut', 'Chars', 'CharIndices', 'Bytes', 'Lines', 'Split', 'SplitWhitespace', 'Once', 'Empty', 'OnceWith',
    'Keys', 'Values', 'ValuesMut', 'IntoKeys', 'IntoValues', 'Item', 'EscapeDefault', 'Union', 'Difference', 'Intersection', 'SymmetricDifference', 'MatrixIter', 'MatrixIterMut', 'IntoArray', 'RChunks', 'SplitN', 'Matches', 'MatchIndices', 'Args', 'ReadDir', 'SplitTerminator', 'SplitAsciiWhitespace', 'Ancestors', 'Components', 'Drain', 'RSplit', 'ChunkBy', 'ExtractIf', 'Splice'}
WRAP = {'Map', 'Filter', 'FilterMap', 'Enumerate', 'Rev', 'Skip', 'StepBy', 'Inspect', 'Cloned', 'Copied', 'Peekable', 'Fuse', 'TakeWhile', 'SkipWhile', 'MapWhile', 'Scan'}     # as finite as what they wrap
ENDLESS = {'RangeFrom', 'Repeat', 'RepeatWith', 'Cycle'}
OPEN = {'Successors', 'FromFn'}
CONSUME = {'collect', 'count', 'sum', 'product', 'last', 'fold', 'for_each', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'partition', 'unzip', 'reduce', 'rev'}
BLOCK = [('std::thread::park', 'waits for another thread'), ('std::sync::mpsc::Receiver', 'waits for a message'), ('std::sync::Condvar::wait', 'waits for a notification'), ('std::sync::poison::condvar::Condvar::wait', 'waits for a notification'), ('std::sync::Barrier::wait', 'waits for other threads'), ('std::sync::barrier::Barrier::wait', 'waits for other threads'), ('std::io::stdin', 'waits for standard input'), ('std::io::Stdin', 'waits for standard input'), ('std::process::Child::wait', 'waits for a process')]

def finite(p, ti, d=0):
    """True / False (endless) / None"""
    if d > 12: return None
    t = p.ty(p.strip(ti)[0])
    if t['k'] != 'adt': return True if t['k'] in ('array', 'slice') else None
    n = t['path'].split('::')[-1]; a = t.get('args', [])
    if n in ENDLESS: return False
    if n in FINITE: return True
    if n in ('Vec', 'VecDeque', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'Option', 'BinaryHeap', 'String'): return True
    if n == 'Take': return True
    if n in ('TakeWhile', 'MapWhile', 'Scan'):
        return True if finite(p, a[0], d + 1) else None
    if n in WRAP and a: return finite(p, a[0], d + 1)
    if n == 'Zip' and len(a) >= 2:
        r = [finite(p, x, d + 1) for x in a[:2]]
        return True if True in r else False if r == [False, False] else None
    if n == 'Chain' and len(a) >= 2:
        r = [finite(p, x, d + 1) for x in a[:2]]
        return True if r == [True, True] else False if False in r else None
    if n in ('FlatMap', 'Flatten'):
        if finite(p, a[0], d + 1) is True: return None if n == 'Flatten' else finite(p, a[1], d + 1) or None
    return None

def span_of(t): return t.get('s')

class Term(Interp):
    """collects a ranking argument for every CFG loop it summarises"""
    def __init__(s, prog, opaque=None):
        super().__init__(prog, opaque); s.seen = {}; s.rec = {}
    def call_body(s, B, vals, store):
        if B in s.stack:
            s.rec.setdefault(B.fn['key'], []).append([s.read_ref(store, v) if v.op == 'mref' else v for v in vals])
        return super().call_body(B, vals, store)
    def loop_seen(s, info, n, cc, vs, inits, nexts, keys=()):
        r = None
        if n is not None: r = 'a counter bounded by %s' % show_short(n)[:120]
        elif cc.unk or not s.stack: r = None
        else:
            try: r = s.rank(cc, vs, nexts, keys) or s.rank_equal(cc, vs, inits, nexts, keys)
            except (Timeout, MemoryError): raise
            except Exception as e: r = None
        s.seen.setdefault((info['where'][0], str(info['where'][1])), []).append(r)
    def rank(s, cc, vs, nexts, keys):
        B = s.stack[-1]; m = dict(zip(vs, nexts)); ints = set(); cand = []
        for v, k in zip(vs, keys):
            ty = None
            if k[1] == () and isinstance(k[0], tuple) and isinstance(k[0][1], int) and not k[0][0] == 'arg' and k[0][1] < len(B.b['locals']): ty = s.p.ty(B.b['locals'][k[0][1]])
            if ty is not None and ty['k'] in ('uint', 'int'): ints.add(v)
            if ty is not None and ty['k'] == 'uint': cand.append((v, m[v], 'an unsigned counter'))
            if v.a[-1] == 'nat': ints.add(v); cand.append((v, m[v], 'an unsigned counter'))
            if v.a[-1] == 'any': cand.append((length(v), length(m[v]), 'the length of a list'))
        atoms = set(); st = [cc]; seen = set()
        while st and len(atoms) < 40:
            x = st.pop()
            if x in seen or x.op != 'ite': continue
            seen.add(x); atoms.add(x.a[0]); st += [x.a[1], x.a[2]]
        for at_ in atoms:
            k, q, c, _ = at_.a
            if k not in ('le', 'lt'): continue
            fr = [v for v in vs if v in q.free]
            if not fr or any(v.a[-1] != 'any' and v not in ints for v in fr): continue
            true_ = mk_atom_cond(at_)
            c = num(c) if k == 'le' else ZERO
            if b_and(cc, b_not(true_)) is FALSE: cand.append((sub(c, q), sub(c, subst(q, m)), 'the distance to the loop bound'))
            elif b_and(cc, true_) is FALSE: cand.append((sub(q, c), sub(subst(q, m), c), 'the distance to the loop bound'))
        for a, b, what in cand:
            if a is b: continue
            if b_and(cc, b_not(ile(ONE, sub(a, b)))) is FALSE: return '%s strictly decreases and is bounded below' % what
        return None
    def rank_equal(s, cc, vs, inits, nexts, keys):
        """the same under the inductive invariant that some lists of the loop state have equal lengths"""
        by = {}
        for i, v in enumerate(vs):
            if v.a[-1] == 'any':
                l = length(inits[i])
                if l.op != 'unk': by.setdefault(l, []).append(i)
        groups = [g for g in by.values() if len(g) > 1]
        while any(len(g) > 1 for g in groups):
            m = {}
            for g in groups:
                for i in g[1:]:
                    k = fresh('nat'); n = length(vs[g[0]]); TM.BOUND[k] = n
                    m[vs[i]] = fm(n, k, lit([app('elem#%d' % vs[i].id, k)]))
            if not m: return None
            c2 = subst(cc, m); nx = [subst(x, m) for x in nexts]
            bad = {i for g in groups for i in g[1:] if b_and(c2, b_not(ieq(length(nx[i]), length(nx[g[0]])))) is not FALSE}
            if not bad:
                r = s.rank(c2, [v for v in vs if v not in m], [x for v, x in zip(vs, nx) if v not in m], [k for v, k in zip(vs, keys) if v not in m])
                return r and r + ' (given %d lists of equal length, an inductive invariant)' % (len(m) + 1)
            groups = [[i for i in g if i not in bad] for g in groups] + [sorted(bad & set(g)) for g in groups if len(bad & set(g)) > 1]
        return None
def mk_atom_cond(at_): return mk('ite', at_, TRUE, FALSE)

def cycles_avoid(B, body, header, avoid):
    """can the header reach itself inside the loop without passing a block of `avoid`?"""
    if header in avoid: return False
    seen = set(); st = [header]
    while st:
        x = st.pop()
        for y in B.succ[x]:
            if y not in body or y in avoid: continue
            if y == header: return True
            if y not in seen: seen.add(y); st.append(y)
    return False

def iteration(p, B, header, body):
    """iteration rule; returns (True, why) or (None, why)"""
    good = set(); why = None
    for x in sorted(body):
        t = B.blocks[x]['t']
        if t['k'] != 'call': continue
        f = t['f'].get('fn') or {}
        nm = f.get('name'); tr = (f.get('trait') or '').split('::')[-1]
        if tr in ('MapAccess', 'SeqAccess') and nm.startswith('next_') and nm != 'next_value':
            good.add(x); why = 'every repetition takes the next entry of the (finite) document'; continue
        if not (tr in ('Iterator', 'DoubleEndedIterator') and nm in ('next', 'next_back')): continue
        l = root_local(B, t['a'][0], body)
        if l is None: continue
        if finite(p, t['a'][0]['p']['t']) is not True: continue
        if f.get('reslocal'): continue          # the crate's own iterator
        if not owned_by_next(B, body, l): continue
        e = none_edge(B, t)
        if e and e[1] not in body: good.add(x); why = 'every repetition takes the next item of a finite iterator (%s)' % p.tpath(p.strip(t['a'][0]['p']['t'])[0])
    if good and not cycles_avoid(B, body, header, good): return True, why
    return None, None
def none_edge(B, t):
    """the edge taken when the call `next` yields nothing"""
    y = t['t']; res = t['d']['l']
    for _ in range(6):
        if y < 0: return None
        bl = B.blocks[y]
        if bl['t']['k'] == 'switch':
            dl = bl['t']['o']['p']['l'] if bl['t']['o']['k'] in ('copy', 'move') else None
            if any(s_['k'] == 'assign' and s_['p']['l'] == dl and s_['r']['k'] == 'discr' and s_['r']['p']['l'] == res for s_ in bl['st']):
                none = [b for v, b in bl['t']['ts'] if str(v) == '0'] or [bl['t']['ot']]
                return y, none[0]
            return None
        if bl['t']['k'] in ('goto', 'drop'): y = bl['t']['t']
        else: return None
def endless_edges(p, B, body):
    out = set()
    for x in body:
        t = B.blocks[x]['t']
        if t['k'] != 'call': continue
        f = t['f'].get('fn') or {}
        if (f.get('trait') or '').split('::')[-1] in ('Iterator', 'DoubleEndedIterator') and f.get('name') in ('next', 'next_back') and t['a'][0]['k'] in ('copy', 'move') and finite(p, t['a'][0]['p']['t']) is False:
            e = none_edge(B, t)
            if e: out.add(e)
    return out
def root_local(B, o, body, d=0):
    """the local an iterator reference points to"""
    if o['k'] not in ('copy', 'move') or d > 4: return None
    l = o['p']['l']
    defs = [(x, st['r']) for x in B.rpo for st in B.blocks[x]['st'] if st['k'] == 'assign' and st['p']['l'] == l and not st['p']['p']]
    calls = [x for x in B.rpo if B.blocks[x]['t']['k'] == 'call' and B.blocks[x]['t']['d']['l'] == l and not B.blocks[x]['t']['d']['p']]
    if len(defs) == 1 and not calls and defs[0][1]['k'] == 'ref':
        pl = defs[0][1]['p']
        if not pl['p']: return pl['l']
        if [e['k'] for e in pl['p']] == ['deref']: return root_local(B, {'k': 'copy', 'p': {'l': pl['l'], 'p': []}}, body, d + 1)
        return None
    if not defs and not calls and 1 <= l <= B.b['argc']: return l
    return None
def owned_by_next(B, body, l):
    """inside the loop the iterator is only advanced, never replaced"""
    refs = {l}
    for _ in range(3):
        for x in body:
            for st in B.blocks[x]['st']:
                if st['k'] == 'assign' and st['r']['k'] in ('ref', 'use', 'rawptr'):
                    src = st['r'].get('p') or (st['r']['o'].get('p') if st['r']['o']['k'] in ('copy', 'move') else None)
                    if src and src['l'] in refs and not st['p']['p']: refs.add(st['p']['l'])
    for x in body:
        bl = B.blocks[x]
        for st in bl['st']:
            if st['k'] == 'assign' and st['p']['l'] == l: return False
            if st['k'] == 'assign' and st['p']['l'] in refs and any(e['k'] == 'deref' for e in st['p']['p']): return False
        t = bl['t']
        if t['k'] == 'call':
            if t['d']['l'] == l: return False
            for a in t['a']:
                if a['k'] in ('copy', 'move') and a['p']['l'] in refs:
                    f = t['f'].get('fn') or {}
                    tr = (f.get('trait') or '').split('::')[-1]
                    if tr not in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'Clone') and f.get('name') not in ('len', 'peek', 'next_if', 'next_if_eq', 'as_slice', 'is_empty'): return False
    return True

def escapes(B, body, never=()):
    """a way out of the loop other than panicking"""
    can = set(x for x in B.rpo if B.blocks[x]['t']['k'] == 'return'); st = list(can)
    while st:
        for q in B.pred[st.pop()]:
            if q not in can: can.add(q); st.append(q)
    return any(y not in body and y in can and (x, y) not in never for x in body for y in B.succ[x])

def value_for(cx, ti, nm, poly, gr):
    """(term or None, generator(rng, hints, val)) for an argument type; None when values cannot be made up"""
    p = cx.p; t = p.ty(p.strip(ti)[1] if isinstance(p.strip(ti)[1], int) else p.strip(ti)[0])
    def gen(ti, d=0):
        t = p.ty(p.strip(ti)[0])
        k = t['k']
        if k == 'float': return lambda r, h: h.number(r)
        if k == 'uint': return lambda r, h: F(r.choice((0, 1, 2, 3, 4, 5, 7, r.choice(h.ints) if h.ints else 6)))
        if k == 'int': return lambda r, h: F(r.randint(-4, 8))
        if k == 'bool': return lambda r, h: r.random() < 0.5
        if k == 'char': return lambda r, h: 'a'
        if k == 'param': return lambda r, h: r.choice(('p', 'q'))
        if k in ('slice', 'array'):
            g = gen(t['of'] if 'of' in t else t['args'][0], d + 1)
            return g and (lambda r, h: tuple(g(r, h) for _ in range(r.randint(0, 5))))
        if k == 'str': return lambda r, h: 's'
        if k != 'adt' or d > 5: return None
        n = t['path'].split('::')[-1]
        if n == 'Matrix' or 'Matrix' in t['path']: return lambda r, h: Rec('Vec2', ('x', 'y', 'z'), (h.number(r), h.number(r), h.number(r)))
        if n == 'String': return lambda r, h: 's'
        if n in ('Vec', 'VecDeque'):
            g = gen(t['args'][0], d + 1)
            return g and (lambda r, h: tuple(g(r, h) for _ in range(r.randint(0, 5))))
        if n == 'Option':
            g = gen(t['args'][0], d + 1)
            return g and (lambda r, h: Var('Some', ('0',), (g(r, h),)) if r.random() < 0.7 else Var('None'))
        a = p.adts.get(t['path'])
        if not a: return None
        alts = []
        for v in a['variants']:
            gs = [gen(f['ty'], d + 1) for f in v['fields']]
            if any(g is None for g in gs): return None
            alts.append((v.get('name'), [f['name'] for f in v['fields']], gs))
        if a.get('kind') == 'enum' or len(alts) > 1:
            def f(r, h):
                nm, fs_, gs = r.choice(alts); return Var(nm, fs_, [g(r, h) for g in gs])
            return f
        return lambda r, h: Rec(a['path'], alts[0][1], [g(r, h) for g in alts[0][2]])
    return gen(ti)

def mentioned(f):
    """function references in a body"""
    out = []
    def go(o):
        if isinstance(o, dict):
            if isinstance(o.get('fn'), dict): out.append(o['fn'])
            for v in o.values(): go(v)
        elif isinstance(o, list):
            for v in o: go(v)
    go(f['body']); go(f.get('promoted', []))
    return out

def c40(cx):
    p = cx.p; fl = Flow(p)
    fns = [f for f in p.d['fns'] if f['kind'] in ('Fn', 'AssocFn')]
    roots = [f['key'] for f in fns if f.get('exported') or f.get('trait')]
    reach = fl.reachable(roots)
    local = [p.fns[k] for k in sorted(reach)]
    cx.functions |= {f['path'] for f in local}
    bodies = {f['key']: fl.body(f) for f in local}
    hasloop = {f['key'] for f in local if bodies[f['key']].loops or bodies[f['key']].irreducible}
    loops = []
    for f in local:
        B = bodies[f['key']]
        for h, body in sorted(B.loops.items()): loops.append((f, B, h, body))
        if B.irreducible: cx.run('%s: irreducible control flow' % f['path'], (lambda f=f: f), 'no cycle without a unique entry', lambda ob: (setattr(ob, 'status', 'undecided'), setattr(ob, 'detail', 'the control flow graph is irreducible')))
    # ------------------------------------------------------------ callees replaced by a name while a loop is ranked
    names = {}
    hasclosure = {f['parent'] for f in local if 'parent' in f and f['parent'] in p.fns}
    def opaque_for(f, wide=True):
        o = {}
        mine = fl.reachable([f['key']])
        for k in mine:
            g = p.fns[k]
            if k == f['key'] or 'parent' in g or g['kind'] == 'Closure': continue
            if not (fl.reachable([k]) & (hasloop | hasclosure if wide else hasloop)): continue
            if any(p.ty(t)['k'] == 'ref' and p.ty(t)['mut'] for t in g['inputs']): continue
            if any(p.ty(p.strip(t)[0])['k'] in ('closure', 'fn', 'dyn', 'fnptr') for t in g['inputs']): continue
            nm = names.setdefault(k, '$%s' % g['path'])
            ok_ = p.ty(g['output'])['k'] == 'uint'
            o[k] = (lambda *vs, nm=nm: nat(app(nm, *vs))) if ok_ else nm
        return o
    tcache = {}
    def ranked(f):
        """{where: [reason or None]} for the loops of f and of the closures it builds"""
        while 'parent' in f and f['parent'] in p.fns: f = p.fns[f['parent']]
        out = tcache.setdefault(f['key'], [])
        for n, wide in enumerate((True, False)):      # callees with loops or closures by name; then only those with loops
            if n >= len(out):
                o = opaque_for(f, wide)
                if out and o == out[0][1]: return
                I = Term(p, o); out.append((I, o))
                try:
                    with Limit(60 if cx.tier == 'quick' else 240): I.summarize(f, ['a%d' % i for i in range(len(f['inputs']))])
                except Exception as e: I.err = e
            yield out[n][0]
    # ------------------------------------------------------------ loops
    def search(ob, f, B, h):
        """arguments of a public function for which the state of the loop repeats"""
        k0 = f['key']
        users = [g for g in fns if g['key'] in roots and k0 in fl.reachable([g['key']])]
        users.sort(key=lambda g: (len(fl.reachable([g['key']])), g['path']))
        notes = []
        for g in users[:4]:
            r = hang(cx, g, opaque_hang(g, k0), notes)
            ob.evals += r[1]
            if r[0]:
                ob.status = 'violated'; ob.detail = 'the loop at %s never ends: %s does not return\n  for %s' % (fmt_span(span_of(B.blocks[h]['t'])), g['path'], r[0]); ob.key = 'hang:%s' % f['path']; return True
        ob.detail += '; '.join(notes)
        return False
    def search_rec(ob, c):
        notes = []; fs = sorted(c)
        if any(p.ty(t)['k'] == 'ref' and p.ty(t)['mut'] for k in c for t in p.fns[k].get('inputs', [])) or any('parent' in p.fns[k] for k in c): ob.detail = 'recursion that changes its arguments in place'; return False
        users = [g for g in fns if g['key'] in roots and g['key'] not in c and set(fl.reachable([g['key']])) & set(c)]
        users.sort(key=lambda g: (len(fl.reachable([g['key']])), g['path']))
        for g in [p.fns[k] for k in fs if k in roots] + users[:2]:
            r = hang(cx, g, {k: '$%s' % p.fns[k]['path'] for k in fs}, notes, group={k: '$%s' % p.fns[k]['path'] for k in fs})
            ob.evals += r[1]
            if r[0]: ob.status = 'violated'; ob.detail = 'the recursion never ends: %s does not return\n  for %s' % (g['path'], r[0]); ob.key = 'recursion:' + p.fns[fs[0]]['path']; return True
        ob.detail = 'no decreasing argument found; ' + '; '.join(notes)
        return False
    def opaque_hang(g, k0):
        o = opaque_for(g)
        return {k: v for k, v in o.items() if k0 not in fl.reachable([k])}
    def loop_ob(f, B, h, body):
        def go(ob):
            ob.site = '%s (%s)' % (f['path'], fmt_span(span_of(B.blocks[h]['t'])))
            if not escapes(B, body, endless_edges(p, B, body)):
                # loops that can only panic are not left by returning
                ob.status = 'violated'; ob.detail = 'the loop at %s cannot be left: no edge out of the cycle reaches a return' % fmt_span(span_of(B.blocks[h]['t'])); ob.key = 'noexit:%s' % f['path']; return
            ok_, why = iteration(p, B, h, body)
            if ok_: ob.detail = why; return
            if f['key'] in roots:
                r = fixpoint(p, B, body)
                if r: ob.status = 'violated'; ob.key = 'hang:%s' % f['path']; ob.detail = 'the loop at %s never ends when %s' % (fmt_span(span_of(B.blocks[h]['t'])), r); return
            for I in ranked(f):
                rs = I.seen.get((f['path'], str(span_of(B.blocks[h]['t']))), [])
                if rs and all(rs): ob.detail = rs[0]; return
            ob.detail = 'no ranking found%s; ' % (' (%r)' % I.err if hasattr(I, 'err') else '')
            if search(ob, f, B, h): return
            ob.status = 'undecided'
        return go
    for i, (f, B, h, body) in enumerate(loops):
        cx.run('loop %s #%d' % (f['path'], sum(1 for g in loops[:i] if g[0] is f) + 1), (lambda f=f: f), 'the loop runs over a finite iterator, or a quantity bounded below decreases on every repetition', loop_ob(f, B, h, body))
        cx.loops['%s %s' % (f['path'], span_of(B.blocks[h]['t']))] = cx.obs[-1].detail[:80]
    # ------------------------------------------------------------ recursion
    # an operation of a type parameter T inside an impl for a type built from T works on a smaller type; so it does in the
    # closures of such a method and in generic helpers that are only ever given type parameters or primitive types
    smaller = {f['key'] for f in p.d['fns'] if f.get('implself', -1) != -1 and p.ty(f['implself'])['k'] == 'adt' and any(p.ty(a)['k'] == 'param' for a in p.ty(f['implself']).get('args', []))}
    users = {}
    for f in p.d['fns']:
        if 'body' in f:
            for o in mentioned(f):
                for q in {o.get('res'), o.get('key')}:
                    if q in p.fns: users.setdefault(q, []).append((f['key'], o.get('args', [])))
    helpers = {f['key'] for f in p.d['fns'] if f['kind'] == 'Fn' and f['key'] in users}
    def plain(a): return p.ty(p.strip(a)[0])['k'] in ('param', 'float', 'int', 'uint', 'bool') if isinstance(a, int) and a >= 0 else True
    def outer(k):
        while 'parent' in p.fns[k] and p.fns[k]['parent'] in p.fns: k = p.fns[k]['parent']
        return k
    while True:
        bad = {g for g in helpers if any(not all(map(plain, a)) or any(p.ty(p.strip(x)[0])['k'] == 'param' for x in a if isinstance(x, int) and x >= 0) and outer(u) not in smaller | helpers for u, a in users[g])}
        if not bad: break
        helpers -= bad
    smaller |= helpers
    def calls_of(k): return [q for q in fl.refs(p.fns[k], params=outer(k) not in smaller) if q in reach]
    graph = {k: calls_of(k) for k in reach}
    comp = sccs(graph)
    def rec_ob(c):
        def go(ob):
            # can some call return at all?
            ok_ = set(); ch = True
            def avoids(k):
                B = bodies[k]; seen = {0}; st = [0]
                while st:
                    x = st.pop(); t = B.blocks[x]['t']
                    if t['k'] == 'return': return True
                    if t['k'] == 'call':
                        fr = t['f'].get('fn') or {}
                        q = fr.get('res') if fr.get('res') in p.fns else fr.get('key')
                        if q in c and q not in ok_: continue
                    for y in B.succ[x]:
                        if y not in seen: seen.add(y); st.append(y)
                return False
            while ch:
                ch = False
                for k in c:
                    if k not in ok_ and avoids(k): ok_.add(k); ch = True
            stuck = [k for k in sorted(c) if k not in ok_]
            if stuck:
                ob.status = 'violated'; ob.detail = 'every way through %s calls it again before returning' % ', '.join(p.fns[k]['path'] for k in stuck); ob.key = 'recursion:' + p.fns[stuck[0]]['path']; return
            if len(c) == 1:
                f = p.fns[next(iter(c))]
                n = len(f['inputs'])
                for I in ranked(f):
                    calls = I.rec.get(f['key'], [])
                    for i in range(n):
                        ty = p.ty(p.strip(f['inputs'][i])[0]); v = I.sym('a%d' % i, p.strip(f['inputs'][i])[1] if isinstance(p.strip(f['inputs'][i])[1], int) else f['inputs'][i])
                        if calls and ty['k'] == 'uint' and all(len(x) == n and ile(ONE, sub(v, x[i])) is TRUE for x in calls): ob.detail = 'argument %d decreases in each of %d recursive calls' % (i, len(calls)); return
                        if calls and ty['k'] in ('slice', 'adt') and all(len(x) == n and x[i].op in SEQISH_ and ile(ONE, sub(length(v), length(x[i]))) is TRUE for x in calls): ob.detail = 'argument %d gets shorter in each of %d recursive calls' % (i, len(calls)); return
            if search_rec(ob, c): return
            ob.status = 'undecided'
        return go
    n = 0
    for c in comp:
        if len(c) == 1:
            k = next(iter(c))
            if k not in graph[k]: continue
        n += 1
        cx.run('recursion through %s' % ', '.join(sorted(p.fns[k]['path'] for k in c)), (lambda c=c: p.fns[sorted(c)[0]]), 'some argument decreases in every recursive call, and not every path recurses', rec_ob(c))
    def norec(ob): ob.detail = '%d functions, %d recursive groups' % (len(reach), n)
    cx.run('call graph', None, 'recursion is limited to the groups listed as obligations of their own', norec)
    # ------------------------------------------------------------ endless iterators, blocking calls
    def endless(ob):
        m = 0; unk = []
        for f in local:
            for t in fl.calls(f):
                fr = t['f'].get('fn') or {}; tr = (fr.get('trait') or '').split('::')[-1]
                m += 1
                if tr in ('Iterator', 'DoubleEndedIterator') and fr['name'] in CONSUME and t['a'] and t['a'][0]['k'] in ('copy', 'move') and finite(p, t['a'][0]['p']['t']) is False or \
                   tr in ('Extend', 'FromIterator') and any(a['k'] in ('copy', 'move') and finite(p, a['p']['t']) is False for a in t['a']):
                    ob.status = 'violated'; ob.key = 'endless:' + f['path']; ob.detail = '%s consumes an endless iterator with `%s` at %s' % (f['path'], fr['name'], fmt_span(t['s'])); return
        ob.detail = '%d call sites' % m
    cx.run('endless iterators', None, 'no call consumes an iterator that never ends', endless)
    def blocking(ob):
        m = 0
        for f in local:
            for t in fl.calls(f):
                fr = t['f'].get('fn') or {}; m += 1
                for pt_ in {fr.get('respath') or '', fr.get('path') or ''}:
                    for pre, what in BLOCK:
                        if pt_.startswith(pre): ob.status = 'violated'; ob.key = 'blocks:' + f['path']; ob.detail = '%s %s (%s at %s)' % (f['path'], what, pt_, fmt_span(t['s'])); return
        ob.detail = '%d call sites' % m
    cx.run('blocking calls', None, 'no reachable call waits for another thread, process or for input', blocking)
SEQISH_ = ('sym', 'lit', 'cat', 'upd', 'fm', 'rec', 'fresh', 'proj', 'ite', 'app', 'at')

def sccs(g):
    idx = {}; low = {}; st = []; on = set(); out = []; c = [0]
    def go(v):
        work = [(v, iter(g[v]))]; idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = c[0]; c[0] += 1; st.append(y); on.add(y); work.append((y, iter(g[y]))); break
                elif y in on: low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    comp = set()
                    while True:
                        y = st.pop(); on.discard(y); comp.add(y)
                        if y == x: break
                    out.append(comp)
    for v in sorted(g):
        if v not in idx: go(v)
    return out

ARITH = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'add_assign': 'Add', 'sub_assign': 'Sub', 'mul_assign': 'Mul', 'div_assign': 'Div'}
CMP = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}
def fixpoint(p, B, body):
    """a loop that counts a number from an argument up or down in constant steps: an infinite value never moves, and a NaN
    never compares; description of the value for which every test keeps the loop going"""
    argc = B.b['argc']; loc = B.b['locals']
    defs = {}; muts = {}
    for x in B.rpo:
        for st in B.blocks[x]['st']:
            if st['k'] != 'assign': continue
            r = st['r']
            if r['k'] == 'ref' and r['mut'] and not st['p']['p']: muts[st['p']['l']] = r['p']
            defs.setdefault(st['p']['l'], []).append((x, None if st['p']['p'] else r))
        t = B.blocks[x]['t']
        if t['k'] == 'call': defs.setdefault(t['d']['l'], []).append((x, None if t['d']['p'] else t))
    for x in B.rpo:                                 # what a compound assignment leaves behind
        t = B.blocks[x]['t']
        if t['k'] != 'call': continue
        for n, a in enumerate(t['a']):
            if a['k'] in ('copy', 'move') and a['p']['l'] in muts and not a['p']['p']:
                q = muts[a['p']['l']]
                defs.setdefault(q['l'], []).append((x, t if n == 0 and not q['p'] and (t['f'].get('fn') or {}).get('name', '').endswith('_assign') else None))
    def name(t): return (t['f'].get('fn') or {}).get('name', '')
    def numeric(ti): return p.ty(p.strip(ti)[0])['k'] in ('float', 'param')
    def parts(d):
        """(operation, operands) of a definition; references to a place count as the place"""
        if d is None: return None
        if d['k'] == 'call': return (name(d), d['a'])
        if d['k'] == 'use': return ('use', [d['o']])
        if d['k'] == 'ref': return ('use', [{'k': 'copy', 'p': d['p']}])
        if d['k'] == 'bin': return (d['op'], [d['a'], d['b']])
        if d['k'] == 'un': return (d['op'].lower(), [d['o']])
        if d['k'] == 'cast': return ('use', [d['o']])
        return None
    def plain(o): return all(e['k'] == 'deref' for e in o['p']['p'])
    def const(o, seen=()):
        if o['k'] == 'const': return True
        l = o['p']['l']
        if l in seen or l <= argc or not plain(o) or l not in defs: return False
        for _, d in defs[l]:
            q = parts(d)
            if q is None or not all(const(a, seen + (l,)) for a in q[1]): return False
        return True
    OKOPS = {'use', 'add', 'sub', 'mul', 'neg', 'abs', 'sqrt', 'deref', 'index', 'clone', 'distance', 'norm', 'norm_squared', 'Add', 'Sub', 'Mul', 'add_assign', 'sub_assign', 'into', 'from', 'copy'}
    def fromarg(o, seen):
        """a number that is infinite when an argument is"""
        if const(o): return False
        l = o['p']['l']
        if 1 <= l <= argc: return True
        if l in seen or l not in defs: return False
        seen.add(l); hit = False
        for _, d in defs[l]:
            q = parts(d)
            if q is None or q[0] not in OKOPS | {'div', 'Div', 'mul_assign', 'div_assign'}: return None
            for a in q[1]:
                v = fromarg(a, seen)
                if v is None: return None
                hit |= v
        return hit
    def trace(o, ops=()):
        """the loop variable an operand is computed from, and how"""
        if o['k'] == 'const' or not plain(o) or const(o): return None
        l = o['p']['l']
        ins = [d for x, d in defs.get(l, []) if x in body]
        if len(defs.get(l, [])) == 1 and len(ins) == 1:
            q = parts(ins[0])
            if q and q[0] in ('use', 'abs', 'neg', 'deref', 'clone') and len(q[1]) == 1: return trace(q[1][0], ops + ((q[0],) if q[0] in ('abs', 'neg') else ()))
        return (l, ops) if ins else None
    def positive(o):
        while o['k'] != 'const':
            d = defs.get(o['p']['l'], [])
            q = parts(d[0][1]) if len(d) == 1 and not o['p']['p'] else None
            if not q or q[0] not in ('use', 'unwrap', 'from', 'into') or len(q[1]) != 1: return False
            o = q[1][0]
        if 'bits' not in o or p.ty(o['t'])['k'] != 'float': return False
        return int(o['bits']) >> (8 * o.get('size', 4) - 1) == 0
    # no test of the argument before the loop
    for x in B.rpo:
        t = B.blocks[x]['t']
        if t['k'] == 'call' and name(t) in ('is_nan', 'is_finite', 'is_infinite', 'total_cmp', 'classify', 'is_normal', 'max', 'min', 'clamp'): return None
        if any(x in b for b in B.loops.values()): continue
        if t['k'] == 'call' and name(t) in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'partial_cmp'): return None
        for st in B.blocks[x]['st']:
            if st['k'] == 'assign' and st['r']['k'] == 'bin' and st['r']['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') and p.ty(st['r']['a']['t'] if st['r']['a']['k'] == 'const' else st['r']['a']['p']['t'])['k'] == 'float': return None
    var = None; tests = []
    for x in body:
        outs = [y for y in B.succ[x] if y not in body]
        if not outs: continue
        t = B.blocks[x]['t']
        if t['k'] != 'switch' or t['o']['k'] not in ('copy', 'move') or t['o']['p']['p']: return None
        d = [d for _, d in defs.get(t['o']['p']['l'], [])]
        if len(d) != 1 or parts(d[0]) is None: return None
        op, ab = parts(d[0]); op = CMP.get(op, op)
        if op not in ('Lt', 'Le', 'Gt', 'Ge') or len(ab) != 2 or not all(numeric(a['t'] if a['k'] == 'const' else a['p']['t']) for a in ab): return None
        tr = [trace(a) for a in ab]
        if (tr[0] is None) == (tr[1] is None): return None
        side = 0 if tr[0] else 1
        if not const(ab[1 - side]): return None
        if var not in (None, tr[side][0]): return None
        var = tr[side][0]
        go = {int(w) == 1: b for w, b in t['ts'] if int(w) in (0, 1)}
        for v in (False, True): go.setdefault(v, t['ot'])
        tests.append((op, side, tr[side][1], {v for v in go if go[v] in body}))
    if var is None or not numeric(loc[var]): return None
    def steps(o, n=0):
        """var, or var after additions of constants and scaling by positive ones"""
        if o['k'] == 'const' or not plain(o) or n > 12: return False
        l = o['p']['l']
        if l == var or l in muts and muts[l]['l'] == var: return True
        return len(defs.get(l, [])) == 1 and step(defs[l][0][1], n + 1)
    def step(d, n=0):
        q = parts(d)
        if q is None: return False
        if q[0] in ('use', 'clone', 'deref') and len(q[1]) == 1: return steps(q[1][0], n + 1)
        if q[0] not in set(ARITH) | set(ARITH.values()) or len(q[1]) != 2: return False
        op = ARITH.get(q[0], q[0]); a, b = q[1]
        return (steps(a, n + 1) and const(b) or op == 'Add' and const(a) and steps(b, n + 1)) and (op not in ('Mul', 'Div') or positive(b))
    if not all(step(d) for x, d in defs[var] if x in body): return None
    init = [d for x, d in defs[var] if x not in body]
    if not (1 <= var <= argc):
        if not init: return None
        hit = False
        for d in init:
            q = parts(d)
            if q is None or q[0] not in OKOPS: return None
            for a in q[1]:
                v = fromarg(a, {var})
                if v is None: return None
                hit |= v
        if not hit: return None
    inf = float('inf')
    for v, what in ((inf, 'infinite'), (-inf, 'minus infinity'), (float('nan'), 'not a number')):
        good = True
        for op, side, ops, stay in tests:
            y = v
            for o in reversed(ops): y = abs(y) if o == 'abs' else -y
            a, b = (y, 0.0) if side == 0 else (0.0, y)
            r = {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            good &= r in stay
        if good: return 'the number it counts with is %s: a step leaves it unchanged and no test ends the loop' % what
    return None

def hang(cx, g, opq, notes, group=None):
    """(description of an argument for which the summary of g does not terminate or None, structures tried)"""
    p = cx.p
    names = ['a%d' % i for i in range(len(g['inputs']))]; args = []; gens = []; eps = F(1, 4)
    for i, ti in enumerate(g['inputs']):
        t = p.ty(p.strip(ti)[0]); nm = names[i]; last = (t.get('path') or '').split('::')[-1]
        if last == 'Polygon':
            A = GE.Poly(cx); args.append(A.of(sym('v'))); dp = GE.d_poly('v')
            gens.append(lambda r, h, i, dp=dp: dp(r, h, i))
        elif last == 'PlanarGraph':
            A = GR.G(cx); args.append(A.g); dg = GR.d_graph(A); eps = F(1, 64)
            gens.append(lambda r, h, i, dg=dg: dg(r, h, i))
        elif t['k'] in ('slice', 'adt') and last in ('', 'Vec') and 'Matrix' in (p.ty(p.strip((t.get('args') or [t.get('of', -1)])[0])[0]).get('path') or ''):
            args.append(None); dl = GE.d_list(nm, 0)
            gens.append(lambda r, h, i, dl=dl: dl(r, h, i))
        else:
            gg = value_for(cx, ti, nm, None, None)
            if gg is None: notes.append('no values of the argument types of %s' % g['path']); return None, 0
            args.append(None)
            gens.append(lambda r, h, i, nm=nm, gg=gg: {nm: gg(r, h)})
    opaque = {}; funs = {}
    for k, v in opq.items():
        q = p.fns[k]; nm = '$%s' % q['path']
        opaque[k] = v
        funs[nm] = callee(cx, q, funs, eps, group)
    try: sm = cx.summ(g, names, args, opaque=opaque)
    except Exception as e: notes.append('no summary of %s (%r)' % (g['path'], e)); return None, 0
    terms = [sm.ret] + list(sm.muts.values())
    rng = random.Random('%s/%s' % (cx.seed, g['path'])); hints = Hints(terms); done = 0; skipped = {}
    t0 = time.time(); budget = 40 if cx.tier == 'quick' else 150
    for i in range(cx.trials):
        if time.time() - t0 > budget: break
        val = {}
        for gg in gens: val.update(gg(rng, hints, i) or {})
        for nm in ('e', 'i'): val.pop(nm, None) if nm not in names else None
        ev = Ev(val, eps=eps, funs=funs)
        try:
            if any(ev.ev(c, {}) for c, _, _ in sm.panics): done += 1; continue
        except (NonFinite, Dead, Skip, Hang): pass
        for t in terms:
            try: ev.ev(t, {})
            except Hang: return ', '.join('%s = %s' % (k, rp(v)) for k, v in sorted(val.items())), done
            except (NonFinite, Dead, Skip) as e: skipped[str(e)[:40]] = skipped.get(str(e)[:40], 0) + 1
        done += 1
    notes.append('%s returned on %d structures%s' % (g['path'], done, ' (%s)' % skipped if skipped else ''))
    return None, done
def callee(cx, q, funs, eps, group=None):
    """interpretation of a function that the caller's summary only names: its own summary; a call nested in an identical
    call (or 100 deep) does not return"""
    memo = {}; sm = []; busy = set()
    def f(ev, *vals):
        k = vals
        if k in memo:
            if isinstance(memo[k], Exception): raise memo[k]
            return memo[k]
        if k in busy or len(busy) > 100: raise Hang
        if not sm: sm.append(cx.summ(q, ['a%d' % i for i in range(len(vals))], opaque=group))
        e2 = Ev({'a%d' % i: v for i, v in enumerate(vals)}, eps=eps, funs=funs)
        busy.add(k)
        try:
            for c, _, _ in sm[0].panics:
                if e2.ev(c, {}): raise Dead
            r = memo[k] = e2.ev(sm[0].ret, {})
        except (NonFinite, Dead, Skip) as x: memo[k] = x; raise
        finally: busy.discard(k)
        return r
    return f
PROPS = {'C40': c40}
