"""C27: panics that only a not-a-number coordinate can trigger.

The summaries are computed over exact reals, where every two numbers compare.  A caller may hand the graph a NaN position,
and then every float comparison is false and partial_cmp yields None.  This rule looks for the sites where that outcome
leads to a panic: a branch whose NaN side cannot return, and partial_cmp(..) unwrapped, with an operand that may be NaN.
'May be NaN' is a forward flow from the arguments of the public graph operations; integer conversions, constants and
max/min with a number stop it.  A function that filters NaN values itself (is_nan, is_finite, total_cmp) is not judged."""
from core import *
from effects import Flow

ASKS = {'is_nan': True, 'is_finite': False, 'is_normal': False}
FILTER = ('is_nan', 'is_finite', 'is_infinite', 'total_cmp', 'classify', 'is_normal')
UNWRAP = ('unwrap', 'expect', 'unwrap_unchecked')
NANFALSE = ('Lt', 'Le', 'Gt', 'Ge', 'Eq')

class NaN:
    def __init__(s, p, roots):
        s.p = p; s.fl = Flow(p); s.roots = set(roots)
        s.reach = s.fl.reachable(roots)
        s.par = {k: set() for k in s.reach}; s.ret = {k: False for k in s.reach}
        for k in roots: s.par[k] = set(range(1, p.fns[k]['body']['argc'] + 1))
        s.floaty = {}; s.taint = {}; s.closures = {}
        ch = True
        while ch:
            ch = False
            for k in sorted(s.reach): ch |= s.flow(k)
    def fl_ty(s, ti, d=0):
        """may a value of this type hold a float?"""
        if ti == -1 or d > 6: return True
        if ti in s.floaty: return s.floaty[ti]
        t = s.p.ty(ti); k = t['k']
        if k == 'float': r = True
        elif k in ('int', 'uint', 'bool', 'char', 'str', 'never'): r = False
        elif k in ('ref', 'ptr', 'slice', 'array'): r = s.fl_ty(t['t'], d + 1)
        elif k == 'tuple': r = any(s.fl_ty(a, d + 1) for a in t['args'])
        elif k == 'adt' and t['path'].split('::')[-1] in ('Ordering', 'String', 'Range', 'RangeInclusive') and not any(s.fl_ty(a, d + 1) for a in t.get('args', [])): r = False
        else: r = True
        s.floaty[ti] = r
        return r
    def flow(s, key):
        p = s.p; fn = p.fns[key]; B = s.fl.body(fn); loc = B.b['locals']
        T = set(); clo = {}
        for i in s.par[key]:
            if s.fl_ty(loc[i]): T.add(i)
        changed = False
        def tainted(o): return o['k'] in ('copy', 'move') and o['p']['l'] in T and s.fl_ty(o['p']['t'])
        def add(l):
            if l not in T and s.fl_ty(loc[l]): T.add(l); return True
            return False
        def closures(o):
            if o['k'] == 'const':
                f = o.get('fn') or {}
                return [f[k] for k in ('res', 'key') if f.get(k) in s.reach][:1] or ([o['fnptr']] if o.get('fnptr') in s.reach else [])
            return list(clo.get(o['p']['l'], ()))
        def into(k, i):
            nonlocal changed
            if k in s.par and i not in s.par[k]: s.par[k].add(i); changed = True
        ch = True
        while ch:
            ch = False
            for x in B.rpo:
                for st in B.blocks[x]['st']:
                    if st['k'] != 'assign': continue
                    r = st['r']; l = st['p']['l']
                    ops = [r[f] for f in ('o', 'a', 'b') if isinstance(r.get(f), dict)] + r.get('ops', [])
                    if 'p' in r: ops = ops + [{'k': 'copy', 'p': r['p']}]
                    if r['k'] in ('discr', 'len'): continue
                    if r['k'] == 'agg' and r.get('ak') == 'closure' and r['key'] in s.reach:
                        if r['key'] not in clo.setdefault(l, set()): clo[l].add(r['key']); ch = True
                        if any(tainted(o) for o in ops): into(r['key'], 1)
                    for o in ops:
                        for k in closures(o):
                            if k not in clo.setdefault(l, set()): clo[l].add(k); ch = True
                    if any(tainted(o) for o in ops): ch |= add(l)
                    # a mutable reference into a local: what is written through it ends up there
                    if r['k'] in ('ref', 'rawptr') and l in T: ch |= add(r['p']['l'])
                t = B.blocks[x]['t']
                if t['k'] != 'call': continue
                fr = t['f'].get('fn') or {}; name = fr.get('name', '')
                args = t['a']; tn = [tainted(a) for a in args]
                k = None
                if t['f']['k'] == 'const': k = fr.get('res') if fr.get('res') in s.reach else fr.get('key') if fr.get('key') in s.reach else None
                ks = [(k, 1)] if k else [(c, 2) for c in closures(t['f'])] if t['f']['k'] != 'const' else []
                w = False
                for kk, off in ks:
                    for j, v in enumerate(tn):
                        if v: into(kk, j + off)
                    w |= s.ret[kk]
                    if any(tn): 
                        for a in args:
                            if a['k'] in ('copy', 'move') and p.ty(a['p']['t']).get('mut'): ch |= add(a['p']['l'])
                if not ks:
                    if name in ('max', 'min', 'fmax', 'fmin') and len(args) == 2 and p.ty(args[0]['t'] if args[0]['k'] == 'const' else args[0]['p']['t'])['k'] == 'float': w = all(tn)
                    else: w = any(tn)
                    for a in args:
                        for c in closures(a):
                            if w or any(tn):
                                for i in range(1 if 'parent' not in p.fns[c] else 2, p.fns[c]['body']['argc'] + 1): into(c, i)
                            if s.ret.get(c): w = True
                    if w:
                        for a in args:
                            if a['k'] in ('copy', 'move') and p.ty(a['p']['t'])['k'] == 'ref' and p.ty(a['p']['t']).get('mut'): ch |= add(a['p']['l'])
                if w: ch |= add(t['d']['l'])
        s.taint[key] = T; s.closures[key] = clo
        r = 0 in T and s.fl_ty(loc[0]) and not s.guarded(key, B, T)
        if r and not s.ret[key]: s.ret[key] = True; changed = True
        return changed
    def guarded(s, key, B, T):
        """does every path to a result pass, for each argument that may be NaN, a comparison which a NaN in that argument
        fails?  Arithmetic hands a NaN on, so a comparison of a value computed from the argument is enough."""
        deps = {i: {i} for i in s.par[key]}; ch = True
        def of(o): return deps.get(o['p']['l'], set()) if o['k'] in ('copy', 'move') else set()
        while ch:
            ch = False
            for x in B.rpo:
                todo = []
                for st in B.blocks[x]['st']:
                    if st['k'] != 'assign': continue
                    r = st['r']; ops = [r[f] for f in ('o', 'a', 'b') if isinstance(r.get(f), dict)] + r.get('ops', [])
                    if 'p' in r: ops = ops + [{'k': 'copy', 'p': r['p']}]
                    todo.append((st['p']['l'], set().union(*[of(o) for o in ops])))
                t = B.blocks[x]['t']
                # what a function makes of its arguments is arithmetic only in the operator traits
                if t['k'] == 'call' and (t['f'].get('fn') or {}).get('name') in ('add', 'sub', 'mul', 'div', 'neg', 'index', 'deref', 'abs'): todo.append((t['d']['l'], set().union(*[of(o) for o in t['a']])))
                for l, d in todo:
                    if d - deps.get(l, set()): deps.setdefault(l, set()).update(d); ch = True
        isf = lambda o: s.p.ty(o['t'] if o['k'] == 'const' else o['p']['t'])['k'] == 'float'
        edges = []                                  # (block, successor, arguments whose NaN cannot take this edge)
        for x in B.rpo:
            val = {}
            for st in B.blocks[x]['st']:
                if st['k'] != 'assign' or st['p']['p']: continue
                r = st['r']; val.pop(st['p']['l'], None)
                if r['k'] == 'bin' and r['op'] in NANFALSE and isf(r['a']): val[st['p']['l']] = of(r['a']) | of(r['b'])
            t = B.blocks[x]['t']
            if t['k'] == 'switch' and t['o']['k'] in ('copy', 'move') and not t['o']['p']['p'] and t['o']['p']['l'] in val:
                no = next((b for w, b in t['ts'] if int(w) == 0), t['ot'])
                for y in B.succ[x]:
                    if y != no: edges.append((x, y, val[t['o']['p']['l']]))
        if not edges: return False
        tn = lambda o: o['k'] in ('copy', 'move') and o['p']['l'] in T
        sinks = set()
        for x in B.rpo:
            for st in B.blocks[x]['st']:
                if st['k'] == 'assign' and st['p']['l'] == 0:
                    r = st['r']; ops = [r[f] for f in ('o', 'a', 'b') if isinstance(r.get(f), dict)] + r.get('ops', [])
                    if 'p' in r or any(tn(o) for o in ops): sinks.add(x)
            t = B.blocks[x]['t']
            if t['k'] == 'call' and t['d']['l'] == 0: sinks.add(x)
        for j in s.par[key]:
            cut = {(x, y) for x, y, d in edges if j in d}; seen = {B.rpo[0]}; st = [B.rpo[0]]
            while st:
                x = st.pop()
                for y in B.succ[x]:
                    if (x, y) not in cut and y not in seen: seen.add(y); st.append(y)
            if seen & sinks: return False
        return bool(sinks)
    # ------------------------------------------------------------------ the sites
    def dies(s, B):
        """blocks from which the function cannot return"""
        can = {x for x in B.rpo if B.blocks[x]['t']['k'] == 'return'}; st = list(can)
        while st:
            for q in B.pred[st.pop()]:
                if q not in can: can.add(q); st.append(q)
        # loops that never end are not panics
        return {x for x in B.rpo if x not in can and not any(x in b for b in B.loops.values())}
    def filters(s, key, own=None):
        """is NaN asked for anywhere in the calls of this function (other than at the site itself)?"""
        for k in s.fl.reachable([key]) | {key}:
            for t in s.fl.calls(s.p.fns[k]):
                if (t['f'].get('fn') or {}).get('name') in FILTER and t['s'] != own: return True
        return False
    def sites(s):
        """(function, span, reason) for every site; and the number of comparisons examined"""
        out = []; n = 0
        for key in sorted(s.reach):
            fn = s.p.fns[key]; B = s.fl.body(fn); T = s.taint[key]; dead = s.dies(B)
            isf = lambda o: s.p.ty(s.p.strip(o['t'] if o['k'] == 'const' else o['p']['t'])[0])['k'] == 'float'
            tn = lambda o: o['k'] in ('copy', 'move') and o['p']['l'] in T
            told = {}                                   # the outcome of is_nan, is_finite .. for a NaN operand
            for x in B.rpo:
                t = B.blocks[x]['t']
                if t['k'] == 'call' and not t['d']['p'] and (t['f'].get('fn') or {}).get('name') in ASKS and t['a'] and tn(t['a'][0]): told[t['d']['l']] = (ASKS[t['f']['fn']['name']], t['s'])
            opt = {}                                    # locals holding the result of partial_cmp, or of a search no NaN passes
            clo = s.closures.get(key, {})
            for x in B.rpo:
                val = dict(told)                        # bool local -> its value when the operands are NaN
                for st in B.blocks[x]['st']:
                    if st['k'] != 'assign' or st['p']['p']: continue
                    r = st['r']; l = st['p']['l']; val.pop(l, None)
                    if r['k'] == 'discr' and r['p']['l'] in opt and not r['p']['p']: val[l] = (0, opt[r['p']['l']])
                    if r['k'] == 'bin' and r['op'] in NANFALSE + ('Ne',) and isf(r['a']):
                        n += 1
                        if tn(r['a']) or tn(r['b']): val[l] = (r['op'] == 'Ne', st['s'])
                    elif r['k'] == 'un' and r['op'] == 'Not' and r['o']['k'] in ('copy', 'move') and r['o']['p']['l'] in val and not r['o']['p']['p']:
                        v, sp = val[r['o']['p']['l']]; val[l] = (not v, sp)
                    elif r['k'] == 'use' and r['o']['k'] in ('copy', 'move') and not r['o']['p']['p'] and r['o']['p']['l'] in val: val[l] = val[r['o']['p']['l']]
                    elif r['k'] == 'use' and r['o']['k'] in ('copy', 'move') and not r['o']['p']['p'] and r['o']['p']['l'] in opt: opt[l] = opt[r['o']['p']['l']]
                t = B.blocks[x]['t']
                if t['k'] == 'switch' and t['o']['k'] in ('copy', 'move') and not t['o']['p']['p'] and t['o']['p']['l'] in val:
                    v, sp = val[t['o']['p']['l']]
                    nxt = next((b for w, b in t['ts'] if int(w) == int(v)), t['ot'])
                    other = [y for y in B.succ[x] if y != nxt]
                    if s.only_dead(B, nxt, dead) and any(y not in dead for y in other): out.append((fn, sp, 'the comparison fails when a coordinate is NaN, and then the call panics'))
                elif t['k'] == 'assert' and t['c']['k'] in ('copy', 'move') and t['c']['p']['l'] in val:
                    v, sp = val[t['c']['p']['l']]
                    if v != bool(t['e']): out.append((fn, sp, 'the assertion fails when a coordinate is NaN'))
                elif t['k'] == 'call':
                    fr = t['f'].get('fn') or {}; name = fr.get('name', '')
                    if name == 'partial_cmp' and len(t['a']) == 2 and all(isf(a) for a in t['a']) and not t['d']['p']:
                        n += 1
                        if any(tn(a) for a in t['a']): opt[t['d']['l']] = t['s']
                    elif name in ('position', 'rposition', 'find') and len(t['a']) == 2 and not t['d']['p'] and any(s.nofit(c) for c in ([k for k in clo.get(t['a'][1]['p']['l'], ())] if t['a'][1]['k'] in ('copy', 'move') else [])):
                        n += 1; opt[t['d']['l']] = t['s']
                    elif name in UNWRAP and t['a'] and t['a'][0]['k'] in ('copy', 'move') and t['a'][0]['p']['l'] in opt and not t['a'][0]['p']['p']:
                        out.append((fn, opt[t['a'][0]['p']['l']], 'the comparison has no result, or the search finds nothing, when a coordinate is NaN, and `%s` panics' % name))
        return out, n
    def only_dead(s, B, x, dead): return x in dead
    def nofit(s, key):
        """does this predicate reject every element when the coordinates are NaN?"""
        B = s.fl.body(s.p.fns[key]); T = s.taint.get(key, ())
        if len([x for x in B.rpo if B.blocks[x]['t']['k'] == 'switch']): return False
        v = None
        for x in B.rpo:
            for st in B.blocks[x]['st']:
                if st['k'] != 'assign': continue
                if st['p']['l'] == 0:
                    r = st['r']
                    v = r['k'] == 'bin' and r['op'] in NANFALSE and any(o['k'] in ('copy', 'move') and o['p']['l'] in T and s.p.ty(o['p']['t'])['k'] == 'float' for o in (r['a'], r['b']))
            t = B.blocks[x]['t']
            if t['k'] == 'call' and t['d']['l'] == 0:
                fr = t['f'].get('fn') or {}
                v = fr.get('name') in ('eq', 'lt', 'le', 'gt', 'ge') and any(s.p.ty(s.p.strip(a['p']['t'])[0])['k'] == 'float' and a['p']['l'] in T for a in t['a'] if a['k'] in ('copy', 'move'))
        return bool(v)

def rule(cx, ob, roots):
    A = NaN(cx.p, roots)
    bad, n = A.sites()
    cx.functions |= {cx.p.fns[k]['path'] for k in A.reach}
    for fn, sp, why in bad:
        if A.filters(fn['key'], sp) or any(A.filters(r, sp) for r in roots if fn['key'] in A.fl.reachable([r])):
            ob.status = ob.status or 'undecided'; ob.detail += '%s at %s: %s, unless the value is filtered before; ' % (fn['path'], fmt_span(sp), why)
            continue
        via = next((cx.p.fns[r]['path'] for r in roots if fn['key'] in A.fl.reachable([r])), '')
        ob.status = 'violated'; ob.key = 'nan:%s' % fn['path']
        ob.detail = '%s at %s, reached from %s: %s' % (fn['path'], fmt_span(sp), via, why)
        return
    if ob.status is None: ob.detail = '%d float comparisons in %d functions, none decides on a panic when an operand is NaN' % (n, len(A.reach))
