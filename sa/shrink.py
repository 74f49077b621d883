"""Size thresholds, brought within reach of the finite structures.

A summary that treats structures of more than, say, 512 elements differently can only be told apart from the required one by
a structure that large.  For those programs the same analysis is run once more on a copy in which every size threshold (an
integer constant of at least 8 that is compared with a computed integer, or limits an iterator) is replaced by a small one,
and every conversion of an index to 8 or 16 bits by one to 2 bits.  Code that is right on both sides of a threshold is right
wherever the threshold lies, so a difference that appears in the copy is one that the code shows past the real threshold.
Only the graph and polygon code, where integers count and number things, is treated this way."""
import copy, json
SCOPE = ('src/graph/', 'src/geometry/')
INTS = ('usize', 'u64', 'u32', 'u16', 'u8', 'isize', 'i64', 'i32', 'i16', 'i8', 'u128', 'i128')
LIMITS = ('take', 'truncate', 'min', 'max', 'clamp', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'cmp')
LOW, HIGH = 8, 1 << 20
PROPS = ['C%02d' % i for i in (8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 21, 22, 23, 24, 25, 26, 27, 28)]

def program(d, word, base=2):
    """(copy of the program with small thresholds, what was changed) or None when there is none"""
    ty = d['types']; found = []
    def small(t): return t.get('name') in ('u8', 'u16') and t['k'] == 'uint'
    def optype(o): return ty[o['t'] if o['k'] == 'const' else o['p']['t']]
    def isint(ti): t = ty[ti]; return t['k'] in ('int', 'uint')
    def val(o):
        if o.get('k') != 'const' or 'bits' not in o or not isint(o['t']): return None
        v = int(o['bits'])
        return v if LOW <= v <= HIGH else None
    sites = []            # (function index, setter(new), value, span)
    out = {}
    fns = d['fns'] if isinstance(d['fns'], list) else list(d['fns'].values())
    for n, fn in enumerate(fns):
        if 'body' not in fn or not fn.get('span') or not str(fn['span'][0]).startswith(SCOPE): continue
        for body in [fn['body']] + [p for p in fn.get('promoted', []) if isinstance(p, dict) and 'blocks' in p]:
            defs = {}
            for b in body['blocks']:
                for st in b['st']:
                    if st['k'] == 'assign' and not st['p']['p']: defs.setdefault(st['p']['l'], []).append(st)
                if b['t']['k'] == 'call': defs.setdefault(b['t']['d']['l'], []).append(None)
            def operand(o, span, depth=0):
                if val(o) is not None: found.append((o, 'bits', val(o), span))
                elif o.get('k') in ('copy', 'move') and not o['p']['p'] and depth < 4:
                    ds = defs.get(o['p']['l'], [])
                    if len(ds) == 1 and ds[0] and ds[0]['r']['k'] in ('use', 'cast'): operand(ds[0]['r']['o'], span, depth + 1)
            repeats = cyclic(body, fn)
            for n_, b in enumerate(body['blocks']):
                for st in b['st']:
                    if st['k'] != 'assign': continue
                    r = st['r']
                    if r['k'] == 'bin' and r['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                        for o in (r['a'], r['b']): operand(o, st['s'])
                    elif r['k'] == 'bin' and r['op'] == 'BitAnd':
                        for o in (r['a'], r['b']):
                            if val(o) is not None and (val(o) + 1) & val(o) == 0 and val(o) >= 255: found.append((o, 'mask', val(o), st['s']))
                            elif o.get('k') == 'const' and 'bits' in o and isint(o['t']) and int(o['bits']) == 65535: found.append((o, 'mask', 65535, st['s']))
                    elif r['k'] == 'cast' and r['ck'].startswith('IntToInt'):
                        src = r['o']['t'] if r['o']['k'] == 'const' else r['o']['p']['t']
                        w0, w1 = word(ty[src]), word(ty[r['t']])
                        if w0 and w1 and w0[1] >= (1 << 31) - 1 and small(ty[r['t']]): found.append((r, 'word', w1[1] + 1, st['s']))
                    elif r['k'] == 'bin' and r['op'].endswith('WithOverflow') and n_ in repeats and small(optype(r['a'])): found.append((r, 'word', word(optype(r['a']))[1] + 1, st['s']))
                t = b['t']
                if t['k'] == 'call':
                    fr = t['f'].get('fn') or {}; tn = [ty[i] for i in fr.get('args') or [] if i >= 0]
                    if (n_ in repeats or fr.get('name') in ('max_value', 'min_value')) and any(x in (fr.get('respath') or '') for x in ('<impl u8>', '<impl u16>')) or fr.get('name') in ('try_from', 'try_into') and any(map(small, tn)):
                        found.append((t, 'word', 256 if '<impl u8>' in (fr.get('respath') or '') or any(x.get('name') == 'u8' for x in tn) else 65536, t['s']))
                if t['k'] == 'call' and (t['f'].get('fn') or {}).get('name') in LIMITS:
                    for o in t['a']: operand(o, t['s'])
                elif t['k'] == 'switch' and isint(t['ty']):
                    for e in t['ts']:
                        if LOW <= int(e[0]) <= HIGH: found.append((e, 0, int(e[0]), t['s']))
    if not found: return None
    vs = sorted({v for _, k, v, _ in found if k in ('bits', 0)}); to = {}; prev = None; cur = base
    for v in vs:
        cur = base if prev is None else cur + min(v - prev, 2); prev = v
        to[v] = cur
    undo = []; seen = set(); words = False
    for o, k, v, sp in found:
        if (id(o), k) in seen: continue
        seen.add((id(o), k))
        if k == 'word': words = True
        elif k == 'mask': undo.append((o, 'bits', o['bits'])); o['bits'] = '3'
        else: undo.append((o, k, o[k])); o[k] = str(3 if k == 'bits' and small(ty[o['t']]) and v == word(ty[o['t']])[1] else to[v])
    d2 = copy.deepcopy(d)
    for o, k, v in undo: o[k] = v
    if words and not consts(fns, ty, small, word): d2['small_words'] = True
    elif not undo: return None
    return d2, [('%s:%s' % tuple(sp[:2]), v) for o, k, v, sp in found]

def cyclic(body, fn):
    """the blocks that can run more than once per call (in a closure: all)"""
    bs = body['blocks']
    if fn['kind'] == 'Closure': return set(range(len(bs)))
    succ = [targets(b['t']) for b in bs]; out = set()
    for n in range(len(bs)):
        seen = set(); work = list(succ[n])
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x); work += succ[x]
        if n in seen: out.add(n)
    return out

def targets(t):
    """jump targets of a terminator"""
    return [w[1] for w in t.get('ts', [])] + [t[k] for k in ('ot', 't') if isinstance(t.get(k), int)]

def consts(fns, ty, small, word):
    """does the code use 8- or 16-bit values that do not fit into 2 bits?"""
    def go(x):
        if isinstance(x, dict):
            if x.get('k') == 'const' and 'bits' in x and small(ty[x['t']]) and 4 <= int(x['bits']) < word(ty[x['t']])[1]: return True
            return any(go(y) for y in x.values())
        return isinstance(x, list) and any(map(go, x))
    return any(go(fn['body']) for fn in fns if 'body' in fn and fn.get('span') and str(fn['span'][0]).startswith(SCOPE))
