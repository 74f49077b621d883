"""C41: results depend only on arguments.

Forward information flow over the MIR of every function reachable from the public API: sources of nondeterminism (clock,
environment, random state, threads, addresses, mutable statics, hash iteration order) must not reach a result, a mutable
argument or the choice between returning and panicking; and the outside world is touched by file loading only."""
from core import *
import fold as FO
from interp import Body

# call path prefixes whose result depends on more than the arguments
SOURCES = [('std::time::', 'the clock'), ('std::env::', 'the process environment'), ('std::thread::current', 'the current thread'), ('std::thread::Thread', 'the current thread'), ('std::thread::LocalKey', 'a thread-local variable'), ('std::thread::available_parallelism', 'the machine'), ('std::thread::panicking', 'the current thread'), ('std::process::id', 'the process id'),
    ('std::hash::RandomState', 'a random hash seed'), ('std::collections::hash_map::RandomState', 'a random hash seed'), ('std::hash::random::RandomState', 'a random hash seed'),
    ('rand::', 'a random generator'), ('getrandom::', 'a random generator'), ('fastrand::', 'a random generator'),
    ('core::fmt::rt::Argument::<\'_>::new_pointer', 'an address'), ('std::fmt::Pointer::fmt', 'an address'), ('std::ptr::addr', 'an address'), ('std::backtrace::', 'the call stack'),
    ('std::mem::MaybeUninit::<T>::uninit', None), ('std::mem::uninitialized', 'uninitialised memory'), ('std::alloc::', None), ('core::arch::', None)]
# call path prefixes that act on the world
ACTS = [('std::process::exit', 'ends the process'), ('std::process::abort', 'ends the process'), ('std::process::Command', 'starts a process'), 
    ('std::env::set_', 'changes the environment'), ('std::env::remove_var', 'changes the environment'), ('std::net::', 'uses the network'), ('std::os::unix::net', 'uses the network'),
    ('std::io::stdin', 'reads standard input'), ('std::io::Stdin', 'reads standard input'), ('std::io::read_to_string', None), ('std::panic::set_hook', 'changes the panic hook')]
FS = ('std::fs::', 'std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::is_dir', 'std::path::Path::metadata', 'std::path::Path::canonicalize', 'std::path::Path::read_dir', 'std::path::Path::try_exists', 'std::os::unix::fs')
FSREAD = ('std::fs::File::open', 'std::fs::read', 'std::fs::read_to_string', 'std::fs::metadata', 'std::fs::OpenOptions::new', 'std::fs::OpenOptions::read', 'std::fs::OpenOptions::open', 'std::fs::File::metadata', 'std::fs::Metadata', 'std::fs::File::options',
    'std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::is_dir', 'std::path::Path::metadata', 'std::path::Path::canonicalize', 'std::path::Path::try_exists', 'std::fs::File::try_clone')
SCHEDULED = ('std::sync::mpsc::', 'std::sync::Mutex', 'std::sync::poison::mutex', 'std::sync::RwLock', 'std::sync::poison::rwlock', 'std::sync::atomic::', 'core::sync::atomic::')     # when threads are started
HASH = ('HashMap', 'HashSet')
ITERS = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'difference', 'union', 'intersection', 'symmetric_difference', 'extract_if')
SORTS = ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')
CLEAN = ('count', 'any', 'all', 'sum', 'product', 'min', 'max', 'len', 'is_empty', 'contains', 'contains_key', 'get', 'min_by', 'max_by', 'min_by_key', 'max_by_key', 'for_each', 'size_hint', 'eq', 'is_subset', 'is_superset', 'is_disjoint')
PICK = ('next', 'nth', 'last', 'find', 'find_map', 'position', 'reduce', 'fold', 'next_back', 'peek', 'rposition', 'rfind')
PRINT = ('std::io::_print', 'std::io::_eprint', 'std::io::stdout', 'std::io::stderr', 'std::io::Stdout', 'std::io::Stderr')

class Flow:
    def __init__(s, prog):
        s.p = prog; s.memo = {}; s.busy = set(); s.bodies = {}
        s.statics = {f['key']: f for f in prog.d['fns'] if 'freeze' in f}
        s.threads = any(((t['f'].get('fn') or {}).get('respath') or '').startswith(('std::thread::spawn', 'std::thread::Scope', 'std::thread::scoped', 'std::thread::Builder')) for f in s.p.fns.values() for t in s.calls(f))
        s.once = s.once_ok()
    def body(s, fn):
        if fn['key'] not in s.bodies: s.bodies[fn['key']] = Body(fn, fn['body'])
        return s.bodies[fn['key']]
    def calls(s, fn):
        for B in [fn['body']] + fn.get('promoted', []):
            for b in B['blocks']:
                if b['t']['k'] == 'call': yield b['t']
    def refs(s, fn, params=True):
        """keys of local functions mentioned by fn: called, passed as a value, or closures built"""
        out = []
        def op(o):
            if isinstance(o, dict):
                if 'fn' in o and isinstance(o['fn'], dict):
                    f = o['fn']
                    for k in ('res', 'key'):
                        if f.get(k) in s.p.fns: out.append(f[k])
                    # a trait method called on a type parameter: every local implementation
                    if params and f.get('trait') and not f.get('reslocal') and f.get('res') is None:
                        out.extend(g['key'] for k2, gs in s.p.impls.items() if k2[0] == f['trait'] and k2[1] == f['name'] for g in gs)
                if o.get('ak') == 'closure' and o.get('key') in s.p.fns: out.append(o['key'])
                if o.get('fnptr') in s.p.fns: out.append(o['fnptr'])
                if o.get('ckey') in s.p.fns: out.append(o['ckey'])
                for v in o.values(): op(v)
            elif isinstance(o, list):
                for v in o: op(v)
        op(fn['body']); op(fn.get('promoted', []))
        return out
    def reachable(s, roots):
        seen = set(); st = list(roots)
        while st:
            k = st.pop()
            if k in seen: continue
            seen.add(k); st.extend(s.refs(s.p.fns[k]))
        return seen
    def once_ok(s):
        """write-once cells initialised by functions without captures are constants"""
        good = set()
        for k, f in s.statics.items():
            pth = s.p.tpath(f['sty']) if f.get('sty', -1) != -1 else ''
            if pth and pth.split('::')[-1] in ('LazyLock', 'Lazy', 'LazyCell'): good.add(k)
            if pth and pth.split('::')[-1] in ('OnceLock', 'OnceCell'):
                ok_ = True
                for g in s.p.fns.values():
                    for t in s.calls(g):
                        fn = t['f'].get('fn')
                        pt = (fn or {}).get('respath') or (fn or {}).get('path') or ''
                        if 'OnceLock' in pt or 'OnceCell' in pt:
                            if fn['name'] not in ('get_or_init', 'new', 'get'): ok_ = False
                            for a in t['a'][1:]:
                                ty = s.p.ty(a['t'] if a['k'] == 'const' else a['p']['t'])
                                if ty['k'] == 'closure' and any(e['k'] == 'field' for e in s.upvars(ty['key'])): ok_ = False
                if ok_: good.add(k)
        return good
    def upvars(s, key):
        out = []
        def go(o):
            if isinstance(o, dict):
                if 'l' in o and 'p' in o and o['l'] == 1: out.extend(o['p'])
                for v in o.values(): go(v)
            elif isinstance(o, list):
                for v in o: go(v)
        if key in s.p.fns: go(s.p.fns[key]['body']['blocks'])
        return out
    # ---------------------------------------------------------------- one function
    def analyse(s, key, tainted=frozenset(), why=None):
        """tainted: (parameter index, kind) pairs, kind 's' depends on a source, 'o' in hash order.
        Returns ({kind: reason} for the result, [(kind, reason, mutable parameter index)], reasons a panic is tainted)."""
        m = (key, tainted)
        if m in s.memo: return s.memo[m]
        if m in s.busy or len(s.busy) > 60: return ({}, [], [])
        s.busy.add(m)
        try: r = s._analyse(s.p.fns[key], tainted, why)
        finally: s.busy.discard(m)
        s.memo[m] = r
        return r
    def _analyse(s, fn, tainted, why):
        p = s.p; B = s.body(fn); blocks = B.blocks; loc = B.b['locals']
        par = list(range(len(loc)))
        def find(x):
            while par[x] != x: par[x] = par[par[x]]; x = par[x]
            return x
        def isref(ti): return p.ty(ti)['k'] in ('ref', 'ptr')
        def mutref(ti, d=0):
            t = p.ty(ti)
            if t['k'] in ('ref', 'ptr'): return t.get('mut', True)
            if d < 3 and t['k'] == 'adt': return any(mutref(a, d + 1) for a in t['args'] if p.ty(a)['k'] in ('ref', 'ptr', 'adt'))
            return False
        # aliases: references are identified with what they may point into
        for x in B.rpo:
            for st in blocks[x]['st']:
                if st['k'] != 'assign': continue
                r = st['r']; l = st['p']['l']
                if r['k'] in ('ref', 'rawptr'): par[find(l)] = find(r['p']['l'])
                elif r['k'] in ('use', 'cast') and r['o']['k'] in ('copy', 'move') and isref(r['o']['p']['t']): par[find(l)] = find(r['o']['p']['l'])
            t = blocks[x]['t']
            if t['k'] == 'call' and mutref(t['d']['t']):
                for a in t['a']:
                    if a['k'] in ('copy', 'move') and mutref(a['p']['t']): par[find(t['d']['l'])] = find(a['p']['l'])
        src = {}; ordr = {}; elem = {}; clo = {}; iters = {}
        sorted_ = set()
        for x in B.rpo:
            t = blocks[x]['t']
            if t['k'] == 'call' and (t['f'].get('fn') or {}).get('name') in SORTS and t['a'] and t['a'][0]['k'] in ('copy', 'move'): sorted_.add(find(t['a'][0]['p']['l']))
        # deref of a vector for sorting: the slice reference is an alias through a call
        for _ in range(3):
            for x in B.rpo:
                t = blocks[x]['t']
                if t['k'] == 'call' and find(t['d']['l']) in sorted_ and (t['f'].get('fn') or {}).get('name') in ('deref_mut', 'as_mut_slice', 'index_mut', 'borrow_mut', 'as_mut'): sorted_.add(find(t['a'][0]['p']['l'])) if t['a'][0]['k'] in ('copy', 'move') else None
        for i, k in tainted: (src if k == 's' else ordr)[find(i)] = (why or {}).get(k) or 'an argument'
        panics = []; muts = {}
        ch = [True]
        def put(d, l, w):
            c = find(l)
            if d is ordr and c in sorted_: return
            if c not in d and w: d[c] = w; ch[0] = True
        def get(d, o):
            if o['k'] in ('copy', 'move'):
                w = d.get(find(o['p']['l']))
                if w is None:
                    for e in o['p']['p']:
                        if e['k'] == 'index' and find(e['l']) in d: w = d[find(e['l'])]
                return w
            return None
        def const(o):
            if o['k'] == 'const' and o.get('static') in s.statics:
                f = s.statics[o['static']]
                if o['static'] in s.once:
                    return None
                if f['staticmut'] or not f['freeze']: return 'the mutable static %s' % f['path']
            if o['k'] == 'const' and 'LocalKey' in (p.tpath(p.strip(o['t'])[0]) or ''): return 'a thread-local variable'
            return None
        def closures(o):
            """local functions an operand may denote"""
            if o['k'] == 'const':
                f = o.get('fn')
                if f: return [f[k] for k in ('res', 'key') if f.get(k) in p.fns][:1]
                return [o['fnptr']] if o.get('fnptr') in p.fns else []
            return list(clo.get(find(o['p']['l']), ()))
        ctl = s.control(B)
        while ch[0]:
            ch[0] = False
            cblocks = {}
            for x, deps in ctl.items():
                t = blocks[x]['t']
                o = t['o'] if t['k'] == 'switch' else t['c']
                w = get(src, o)
                if w:
                    for y in deps: cblocks.setdefault(y, w)
                    if t['k'] == 'assert': panics.append((w, t['s'])) if (w, t['s']) not in panics else None
            for x in B.rpo:
                cw = cblocks.get(x)
                for st in blocks[x]['st']:
                    if st['k'] != 'assign': continue
                    r = st['r']; l = st['p']['l']; ops = [r[k] for k in ('o', 'a', 'b') if isinstance(r.get(k), dict)] + r.get('ops', [])
                    if 'p' in r: ops = ops + [{'k': 'copy', 'p': r['p']}]
                    for d in (src, ordr, elem):
                        for o in ops: put(d, l, get(d, o))
                    for o in ops:
                        put(src, l, const(o))
                        for k in closures(o):
                            if k not in clo.setdefault(find(l), set()): clo[find(l)].add(k); ch[0] = True
                    if r['k'] == 'agg' and r.get('ak') == 'closure' and r['key'] in p.fns and r['key'] not in clo.setdefault(find(l), set()): clo[find(l)].add(r['key']); ch[0] = True
                    if r['k'] == 'cast' and 'PointerExpose' in r['ck']: put(src, l, 'an address (%s)' % fmt_span(st['s']))
                    if r['k'] == 'bin' and r['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Sub') and any(p.ty(o['p']['t'])['k'] == 'ptr' for o in ops if o['k'] in ('copy', 'move')): put(src, l, 'an address (%s)' % fmt_span(st['s']))
                    if cw: put(src, l, cw)
                    for e in st['p']['p']:
                        if e['k'] == 'index': put(src, l, src.get(find(e['l'])))
                t = blocks[x]['t']
                if t['k'] != 'call': continue
                fr = t['f'].get('fn') or {}; path = fr.get('respath') or fr.get('path') or ''; gpath = fr.get('path') or ''; name = fr.get('name', '')
                if any(path.startswith(q) for q in PRINT): continue
                args = t['a']; d = t['d']['l']
                if t['t'] < 0 and cw: panics.append((cw, t['s'])) if (cw, t['s']) not in panics else None
                w = cw
                for pre, what in SOURCES:
                    if what and (path.startswith(pre) or gpath.startswith(pre)): w = w or '%s (%s at %s)' % (what, path, fmt_span(t['s']))
                if s.threads and path.startswith(SCHEDULED): w = w or 'the schedule of threads (%s at %s)' % (path, fmt_span(t['s']))
                for a in args: w = w or get(src, a) or const(a)
                fs = []
                if t['f']['k'] == 'const':
                    k = fr.get('res') if fr.get('res') in p.fns else fr.get('key') if fr.get('key') in p.fns else None
                    if k: fs = [(k, list(range(1, len(args) + 1)))]
                else:
                    w = w or get(src, t['f']); fs = [(k, list(range(2, len(args) + 2))) for k in closures(t['f'])]
                ext = not fs; ow = None
                w0 = w
                if fs: w = cw or (get(src, t['f']) if t['f']['k'] != 'const' else None)
                def merge(res, back):
                    nonlocal w, ow
                    rr, mm, pp = res
                    w = w or rr.get('s'); ow = ow or rr.get('o')
                    for kind, reason, i in mm: back(src if kind == 's' else ordr, i, reason)
                    for z in pp:
                        if z not in panics: panics.append(z)
                for k, idx in fs:
                    ti = frozenset([(i, 's') for i, a in zip(idx, args) if get(src, a) or const(a)] + [(i, 'o') for i, a in zip(idx, args) if get(ordr, a)])
                    oww = None
                    for a in args: oww = oww or get(ordr, a)
                    def back(d_, i, reason):
                        if i - 1 < len(args) and args[i - 1]['k'] in ('copy', 'move'): put(d_, args[i - 1]['p']['l'], reason)
                    merge(s.analyse(k, ti, {'s': w0, 'o': oww}), back)
                # closures and functions handed over as values
                closed = set()
                for j, a in enumerate(args):
                    for k in closures(a):
                        if k not in p.fns: continue
                        closed.add(j)
                        n = p.fns[k]['body']['argc']; isclo = 'parent' in p.fns[k]
                        ti = {(i, 's') for i in range(2 if isclo else 1, n + 1)} if w0 else set()
                        if get(src, a) and isclo: ti.add((1, 's'))
                        if get(ordr, a) and isclo: ti.add((1, 'o'))
                        def back(d_, i, reason, a=a, isclo=isclo): put(d_, a['p']['l'] if a['k'] in ('copy', 'move') and i == 1 and isclo else d, reason)
                        merge(s.analyse(k, frozenset(ti), {'s': w0, 'o': get(ordr, a)}), back)
                put(src, d, w)
                if w and ext:
                    for a in args:
                        if a['k'] in ('copy', 'move') and mutref(a['p']['t']): put(src, a['p']['l'], w)
                # hash iteration order
                st_ = p.ty(fr['implself']) if 'implself' in fr else None
                recv = p.ty(p.strip(args[0]['p']['t'])[0]) if args and args[0]['k'] in ('copy', 'move') else {'k': '?'}
                hashy = recv['k'] == 'adt' and recv['path'].split('::')[-1] in HASH
                dt = p.ty(p.strip(t['d']['t'])[0])
                dhash = dt['k'] == 'adt' and dt['path'].split('::')[-1] in HASH + ('BTreeMap', 'BTreeSet', 'BinaryHeap')
                dflt = hashy and (recv.get('args') and len(recv['args']) < (3 if recv['path'].endswith('HashMap') else 2) or 'RandomState' in json.dumps([p.ty(i) for i in recv.get('args', [])]))
                if hashy and name in ITERS: put(ordr, d, 'the iteration order of a hash table (%s)' % fmt_span(t['s']))
                elif dhash: pass
                else:
                    if ext:
                        for j, a in enumerate(args):
                            if j not in closed: ow = ow or get(ordr, a)
                    if ow and not ext: put(ordr, d, ow)
                    elif ow and name not in CLEAN:
                        inloop = any(x in body for body in B.loops.values())
                        if name in PICK:
                            (put(elem, d, ow) if name == 'next' and inloop else put(ordr, d, ow))
                        elif name in SORTS: pass
                        elif name in ('retain',): pass
                        elif not (p.ty(t['d']['t'])['k'] == 'bool'): put(ordr, d, ow)
                        if name in ('extend', 'append', 'extend_from_slice') and args and args[0]['k'] in ('copy', 'move') and recv.get('path', '').split('::')[-1] in ('Vec', 'VecDeque', 'String'): put(ordr, args[0]['p']['l'], ow)
                    ew = None
                    for a in args[1:]: ew = ew or get(elem, a)
                    if ew and name in ('push', 'push_back', 'push_front', 'push_str', 'extend', 'insert', 'append', 'extend_from_slice') and recv.get('path', '').split('::')[-1] in ('Vec', 'VecDeque', 'String') and args[0]['k'] in ('copy', 'move'): put(ordr, args[0]['p']['l'], ew)
                    for a in args:
                        if get(elem, a): put(elem, d, get(elem, a))
        def sink(c): return {k: d[find(c)] for k, d in (('s', src), ('o', ordr)) if d.get(find(c))}
        ret = sink(0)
        if p.ty(loc[0]) == {'k': 'tuple', 'args': []} or p.ty(loc[0])['k'] == 'never': ret = {}
        mm = []
        for i in range(1, B.b['argc'] + 1):
            clo_env = i == 1 and 'parent' in fn
            if mutref(loc[i]) or clo_env: mm += [(k, r, i) for k, r in sink(i).items() if (i, k) not in tainted]
        return ret, mm, panics
    def control(s, B):
        """switch or assertion -> blocks whose execution depends on its outcome"""
        if hasattr(B, 'ctl'): return B.ctl
        rets = [x for x in B.rpo if B.blocks[x]['t']['k'] == 'return']
        allb = set(B.rpo); pd = {x: set(allb) for x in B.rpo}
        for x in rets: pd[x] = {x}
        # blocks that cannot return do not count when looking for the point where branches meet again
        can = set(rets); st = list(rets)
        while st:
            for q in B.pred[st.pop()]:
                if q not in can: can.add(q); st.append(q)
        ch = True
        while ch:
            ch = False
            for x in reversed(B.rpo):
                if x in rets: continue
                ss = [pd[y] for y in B.succ[x] if y in can]
                n = {x} | (set.intersection(*ss) if ss else set())
                if n != pd[x]: pd[x] = n; ch = True
        B.ctl = {}
        for x in B.rpo:
            t = B.blocks[x]['t']
            if t['k'] == 'assert': B.ctl[x] = set(); continue
            if t['k'] != 'switch': continue
            out = set(); st = [y for y in B.succ[x]]
            stop = pd[x] - {x}
            while st:
                y = st.pop()
                if y in out or y in stop: continue
                out.add(y); st.extend(B.succ[y])
            B.ctl[x] = out
        return B.ctl

def c41(cx):
    p = cx.p; fl = Flow(p)
    fns = [f for f in p.d['fns'] if f['kind'] in ('Fn', 'AssocFn')]
    roots = [f['key'] for f in fns if f.get('exported') or f.get('trait')]
    reach = fl.reachable(roots)
    loader = [f['key'] for f in fns if f['path'] == FO.FOLD + '::from_file']
    others = fl.reachable([k for k in roots if k not in loader])
    public = [f for f in fns if f['key'] in roots]
    ncalls = {}
    def flow(f):
        def go(ob):
            ret, mm, pans = fl.analyse(f['key'])
            n = sum(1 for k in fl.reachable([f['key']]) for _ in fl.calls(p.fns[k]))
            if ret: ob.status = 'violated'; ob.detail = 'the result depends on %s' % (ret.get('s') or ret.get('o'))
            elif mm: ob.status = 'violated'; ob.detail = 'argument %d is left in a state that depends on %s' % (mm[0][2], mm[0][1])
            elif pans: ob.status = 'violated'; ob.detail = 'whether the call at %s is reached depends on %s' % (fmt_span(pans[0][1]), pans[0][0])
            else: ob.detail = '%d call sites in its call graph' % n
            cx.functions |= {p.fns[k]['path'] for k in fl.reachable([f['key']])}
        return go
    for f in public: cx.run(f['path'], (lambda f=f: f), 'no source of nondeterminism flows into the result, a mutable argument or a panic', flow(f))
    def acts(ob):
        n = 0
        for k in sorted(reach):
            g = p.fns[k]
            for t in fl.calls(g):
                fr = t['f'].get('fn') or {}
                n += 1
                for path in {fr.get('respath') or '', fr.get('path') or ''}:
                    for pre, what in ACTS:
                        if what and path.startswith(pre):
                            ob.status = 'violated'; ob.detail = '%s %s: %s at %s' % (g['path'], what, path, fmt_span(t['s'])); return
                    if any(path.startswith(q) for q in FS):
                        if k in others: ob.status = 'violated'; ob.detail = '%s touches the file system outside of loading a document: %s at %s' % (g['path'], path, fmt_span(t['s'])); return
                        if not any(path.startswith(q) for q in FSREAD): ob.status = 'violated'; ob.detail = '%s does more than reading a file: %s at %s' % (g['path'], path, fmt_span(t['s'])); return
        ob.detail = '%d call sites in %d functions' % (n, len(reach))
    cx.run('the outside world', None, 'no reachable call acts on processes, threads, the network, standard input or the environment; files are only read, and only by Fold::from_file', acts)
    def given(ob):
        f = cx.fn(FO.FOLD + '::from_file')
        I = FO.FoldInterp(p); I.slots = {}
        with Limit(cx.limit): I.summarize(f, ['path'], [sym('path')])
        ops = [t for t in I.fallible if t.a[0] == 'io.open']
        for t in ops:
            if t.a[1] is sym('path'): continue
            ap = FO.heads(t.a[1])
            if t.a[1].unk: ob.status = 'undecided'; ob.detail = 'opens %s' % show_short(t.a[1]); return
            if t.a[1].op == 'str' or ap & FO.CHANGED: ob.status = 'violated'; ob.detail = 'opens %s at %s instead of the given path' % (show_short(t.a[1]), fmt_span(I.fallible[t])); return
            ob.status = 'undecided'; ob.detail = 'opens %s' % show_short(t.a[1]); return
        ob.detail = '%d files opened, each at the given path' % len(ops)
        if not ops: ob.status = 'undecided'; ob.detail = 'no file operation recognised'
    cx.run('only the given file is read', lambda: cx.fn(FO.FOLD + '::from_file'), 'every file opened by Fold::from_file is the one at the given path', given)
PROPS = {'C41': c41}
