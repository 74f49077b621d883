"""C30-C32: FOLD documents.

The derived (or hand-written) Serialize / Deserialize implementations and Fold::from_file are summarised by the same
dataflow as everything else; the serde, serde_json and std::io calls get transfer functions here.  Reading a document is
an induction over its entries: the key loop is analysed once per key from an arbitrary loop state."""
from core import *
import models
from interp import Frame
from models import Models, CF

# key, field, element type: s string, n number, i id, z integer of either sign, [..] array, [t,k] array of k
SPEC = [('file_spec', 'file_spec', 'n'), ('file_creator', 'file_creator', 's'), ('file_author', 'file_author', 's'), ('file_title', 'file_title', 's'),
        ('file_description', 'file_description', 's'), ('file_classes', 'file_classes', ['s']), ('frame_author', 'frame_author', 's'), ('frame_title', 'frame_title', 's'),
        ('frame_description', 'frame_description', 's'), ('frame_classes', 'frame_classes', ['s']), ('frame_attributes', 'frame_attributes', ['s']), ('frame_unit', 'frame_unit', 's'),
        ('vertices_coords', 'vertices_coords', [['n']]), ('vertices_vertices', 'vertices_vertices', [['i']]), ('vertices_faces', 'vertices_faces', [['i']]),
        ('edges_vertices', 'edges_vertices', [['i']]), ('edges_faces', 'edges_faces', [['i']]), ('edges_assignment', 'edges_assignment', ['s']),
        ('edges_foldAngles', 'edges_foldangles', ['n']), ('edges_lengths', 'edges_lengths', ['n']), ('faces_vertices', 'faces_vertices', [['i']]), ('faces_edges', 'faces_edges', [['i']]),
        ('faceOrders', 'faceorders', [['z', 3]]), ('edgeOrders', 'edgeorders', [['z', 3]])]
ODD = 'fold_x:unknown'
FOLD = 'fold::fold::Fold'
DOC = sym('the document')          # the deserializer over a whole document
def ident(k): return mk('app', 'de.key', string(k))
def keyname(d): return d.a[1].a[0] if d.op == 'app' and d.a[0] == 'de.key' else None

class FoldModels(Models):
    def ask(s, path, trait, name, args, st, pans):
        """call a local trait method of the type `path`"""
        c = [f for k, fs in s.p.impls.items() if k[0] == trait and k[1] == name and k[2] == path for f in fs]
        if len(c) != 1: return unk('%s::%s of %s' % (trait, name, path)), st, pans
        r, st2, p = s.I.call_fn(c[0], args, st)
        return r, st2, pans + p
    def value(s, ti, d, st, pans):
        """T::deserialize(d)"""
        t = s.p.ty(ti)
        if t['k'] == 'adt' and t['path'].endswith('IgnoredAny'): return ok(UNIT), st, pans
        k = keyname(d)
        if t['k'] == 'adt' and s.p.adts.get(t['path'], {}).get('local') and not (d.op == 'struct' and d.a[0] == 'json reader'):
            return s.ask(t['path'], 'serde::Deserialize', 'deserialize', [d], st, pans)
        if d.op == 'struct' and d.a[0] == 'json reader' and t['k'] == 'adt' and t['path'] == FOLD:
            return lift_leaves_app(s, 'json.prefix', d.a[2][0], None), st, pans
        if k is not None and (t['k'] == 'adt' and t['path'].split('::')[-1] in ('String', 'Cow') or t['k'] == 'ref'): return ok(string(k)), st, pans
        if d.op == 'app' and d.a[0] == 'de.value':
            s.I.value_types.setdefault(d.a[1].a[0], []).append(ti)
            return ok(mk('app', 'value', d.a[1])), st, pans
        return unk('deserialize'), st, pans
    def t_Deserialize(s, fn, name, args, st, span, dty, pans, V):
        if name == 'deserialize': return s.value(fn['args'][0], V(0), st, pans)
    def t_DeserializeSeed(s, fn, name, args, st, span, dty, pans, V): return unk('seed')
    def t_Deserializer(s, fn, name, args, st, span, dty, pans, V):
        d = V(0); vt = s.p.tpath(fn['args'][-1]); vis = args[-1]
        k = keyname(d)
        if k is not None: return s.ask(vt, 'serde::de::Visitor', 'visit_str', [vis, string(k)], st, pans)
        if d is DOC: return s.ask(vt, 'serde::de::Visitor', 'visit_map', [vis, sym('entries')], st, pans)
        return unk('deserializer')
    def t_MapAccess(s, fn, name, args, st, span, dty, pans, V):
        I = s.I
        if name == 'size_hint': return NONE
        if name == 'next_key':
            if I.key is None: return ok(NONE)
            r, st, pans = s.value(fn['args'][1], ident(I.key), st, pans)
            return ite(isv(r, 'Ok'), ok(some(pay(r, 'Ok', '0'))), err(pay(r, 'Err', '0')) if isv(r, 'Ok') is not TRUE else NONE) if r.op != 'unk' else r, st, pans
        if name == 'next_value': return s.value(fn['args'][1], mk('app', 'de.value', string(I.key or '?')), st, pans)
        if name == 'next_entry':
            if I.key is None: return ok(NONE)
            a, st, pans = s.value(fn['args'][1], ident(I.key), st, pans)
            b, st, pans = s.value(fn['args'][2], mk('app', 'de.value', string(I.key)), st, pans)
            if isv(a, 'Ok') is TRUE and isv(b, 'Ok') is TRUE: return ok(some(tup(pay(a, 'Ok', '0'), pay(b, 'Ok', '0')))), st, pans
            return unk('entry')
        return unk('map access')
    def t_Error(s, fn, name, args, st, span, dty, pans, V):
        return mk('app', 'error.' + name, *[V(i) for i in range(len(args)) if V(i).op == 'str'])
    def t_Serialize(s, fn, name, args, st, span, dty, pans, V):
        """value.serialize(serializer) inside a custom writer of one field"""
        if name != 'serialize': return unk('serialize')
        ti, t = s.p.strip(fn['args'][0])
        if t['k'] == 'adt' and s.p.adts.get(t['path'], {}).get('local'): return s.ask(t['path'], 'serde::Serialize', 'serialize', args, st, pans)
        return ok(V(0)), st, pans
    def t_Serializer(s, fn, name, args, st, span, dty, pans, V):
        if name.startswith('serialize_') and name[10:] in ('str', 'bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'some', 'newtype_struct'): return ok(V(len(args) - 1))
        if name == 'collect_seq':
            it = s.to_iter(args[1], st)
            return ok(proj(it, 'seq')) if it.op == 'struct' and 'seq' in it.a[1] else unk('collect_seq')
        if name in ('serialize_struct', 'serialize_map'): return ok(struct('written', ('entries',), (NIL,)))
        return unk('serializer.' + name)
    def t_SerializeStruct(s, fn, name, args, st, span, dty, pans, V):
        I = s.I
        if name == 'skip_field': return ok(UNIT)
        if name in ('serialize_field', 'serialize_entry'):
            w = V(0)
            k, v = V(1), V(2)
            e = cat([proj(w, 'entries'), lit([tup(k, v)])])
            return ok(UNIT), I.write_ref(st, args[0], struct('written', ('entries',), (e,))), pans
        if name == 'end': return ok(proj(V(0), 'entries'))
        return unk('serializer.' + name)
    t_SerializeMap = t_SerializeStruct
    # ---- input
    def fallible(s, span, name, *a):
        r = mk('app', name, *a); s.I.fallible[r] = span; return r
    def t_Read(s, fn, name, args, st, span, dty, pans, V):
        f = s.src(V(0))
        if f.op == 'unk': return f, s.poison(args, st), pans
        if name in ('read_to_string', 'read_to_end'):
            r = s.fallible(span, 'io.read' if name == 'read_to_string' else 'io.bytes', f)
            text = mk('app', 'text' if name == 'read_to_string' else 'bytes', f)
            buf = V(1); b = s.src(buf)
            full = text if b is NIL or b.op == 'str' and b.a[0] == '' else mk('app', 'append', b, text)
            st = I_write(s, st, args[1], ite(isv(r, 'Ok'), full, mk('app', 'partial', f)))
            return r, I_write(s, st, args[0], mk('app', 'drained', f)), pans
        if name == 'by_ref': return args[0]
        if name in ('read', 'read_exact', 'read_buf'):
            r = s.fallible(span, 'io.part', f)
            return r, I_write(s, I_write(s, st, args[1], mk('app', 'partial', f)), args[0], mk('app', 'drained', f)), pans
        if name in ('take', 'bytes', 'chain'): return mk('app', 'partial', f)
        return unk('read.' + name), s.poison(args, st), pans
    def t_BufRead(s, fn, name, args, st, span, dty, pans, V): 
        if name in ('read_line', 'read_until'):
            f = s.src(V(0)); r = s.fallible(span, 'io.part', f)
            return r, I_write(s, st, args[1], mk('app', 'partial', f)), pans
        return unk('read.' + name), s.poison(args, st), pans
    def src(s, v):
        return v
    def try_model(s, fn, args, st, span, dty):
        path, name = fn.get('respath') or fn['path'], fn['name']
        V = lambda i: s.I.read_ref(st, args[i])
        if name == 'deserialize' and len(args) == 1 and (fn.get('trait') or '').endswith('Deserialize') and V(0).op == 'struct' and V(0).a[0] == 'json reader':
            return s.value(fn['args'][0] if fn.get('args') and s.p.ty(fn['args'][0])['k'] == 'adt' else dty, V(0), st, [])
        if path.endswith('missing_field') and not fn.get('trait'):
            t = s.p.ty(fn['args'][-2]) if len(fn['args']) > 1 else {'k': '?'}
            if t['k'] == 'adt' and t['path'].endswith('Option'): return ok(NONE), st, []
            return err(mk('app', 'error.missing_field', *[V(0)] if V(0).op == 'str' else [])), st, []
        if path.startswith('std::fs::File::open') or path == 'std::fs::File::open': return s.fallible(span, 'io.open', V(0)), st, []
        if path in ('std::fs::read_to_string', 'std::fs::read'):
            o = s.fallible(span, 'io.open', V(0)); f = pay(o, 'Ok', '0')
            r = s.fallible(span, 'io.read' if name == 'read_to_string' else 'io.bytes', f); text = mk('app', 'text' if name == 'read_to_string' else 'bytes', f)
            return ite(isv(o, 'Ok'), ite(isv(r, 'Ok'), ok(text), err(pay(r, 'Err', '0'))), err(pay(o, 'Err', '0'))), st, []
        if path == 'std::fs::metadata' or path.endswith('File::metadata'): return s.fallible(span, 'io.meta', V(0)), st, []
        if 'fs::Metadata::' in path:
            r = mk('app', 'meta.' + name, V(0)); t = s.p.ty(dty)
            if V(0).op != 'unk': return (as_bool(r) if t['k'] == 'bool' else nat(r) if t['k'] == 'uint' else r), st, []
        if path.startswith('std::io::') and 'BufReader' in path and name in ('new', 'with_capacity'): return args[-1], st, []
        if path in ('serde_json::from_str', 'serde_json::from_slice', 'serde_json::from_reader', 'serde_json::de::from_str', 'serde_json::de::from_slice', 'serde_json::de::from_reader'):
            v = V(0)
            if name == 'from_reader':
                if v.op == 'unk': return v, st, []
                v = mk('app', 'text', v) if not (v.op == 'app' and v.a[0] == 'partial') else v
                rd = s.fallible(span, 'io.json', v); return rd, st, []
            ty = [s.p.tpath(a) for a in fn['args'] if s.p.ty(a)['k'] == 'adt']
            if FOLD not in ty: return unk('json of another type'), st, []
            return lift_leaves_app(s, 'json', v, span), st, []
        if path.startswith('serde_json') and 'Deserializer' in path:
            if name in ('from_str', 'from_slice', 'from_reader'): return struct('json reader', ('src', 'done'), (V(0), FALSE)), st, []
            if name == 'end' and V(0).op == 'struct':
                r = s.fallible(span, 'json.end', V(0).a[2][0])
                return r, st, []
        if path.startswith('std::path::Path') and args:
            if name in ('to_path_buf', 'as_path', 'as_ref', 'new', 'from', 'into', 'as_os_str', 'display', 'clone', 'to_owned', 'borrow'): return V(0), st, []
            r = mk('app', 'path.' + name, *[V(i) for i in range(len(args))])
            if any(V(i).op == 'unk' for i in range(len(args))): r = unk('path')
            return (as_bool(r) if dty >= 0 and s.p.ty(dty)['k'] == 'bool' and r.op != 'unk' else r), st, []
        if 'from_utf8_lossy' in path: return mk('app', 'lossy', V(0)), st, []
        if path.endswith('String::from_utf8') or path.endswith('str::from_utf8'):
            r = s.fallible(span, 'utf8', V(0))
            return ite(isv(r, 'Ok'), ok(mk('app', 'decoded', V(0))), err(pay(r, 'Err', '0'))), st, []
        if 'Cow' in path and name in ('into_owned', 'to_string', 'as_ref', 'clone', 'deref'): return V(0), st, []
        r = s.string_op(fn, path, name, args, V, span, st, dty)
        if r is not None: return r
        if fn.get('trait') is None and name == 'push_str' and V(0).op != 'unk': return UNIT, s.I.write_ref(st, args[0], interp.lift_leaves(V(0), lambda l: V(1) if l is string('') else mk('app', 'append', l, V(1)))), []
        if name == 'clear' and 'String' in path: return UNIT, s.I.write_ref(st, args[0], string('')), []
        if dty >= 0 and s.p.tpath(dty).endswith('Error') and s.p.tpath(dty).startswith(('std::io', 'serde_json')): return mk('app', 'io.error'), st, []
        if path.startswith('std::io::Error::') or path.startswith('std::io::error::'): return mk('app', 'io.error'), st, []
        if fn.get('trait') in ('std::convert::From', 'std::convert::Into') and dty >= 0 and s.p.tpath(dty).endswith('Error'): return mk('app', 'io.error'), st, []
        return super().try_model(fn, args, st, span, dty)
    def string_op(s, fn, path, name, args, V, span, st, dty):
        """str methods: what they cut or change of a text"""
        tr = fn.get('trait')
        if not ('str::<impl str>' in path or 'string::String' in path or tr in ('std::ops::Index', 'core::ops::Index', 'std::ops::index::Index')) or not args: return None
        v = V(0)
        if tr is not None:
            if not tr.endswith('Index') or len(args) < 2: return None
            _, t = s.p.strip(fn['args'][0])
            if not (t['k'] == 'str' or t['k'] == 'adt' and t['path'].endswith('String')): return None
            if v.op == 'unk': return None
            r = args[1]
            if r.op == 'app' or r.op == 'unk': return None
            if 'RangeFull' in r.a[0]: return v, st, []
            pans = []
            for b in (proj(r, x) for x in ('start', 'end') if x in r.a[1]):
                n = nat(app('strlen', v))
                if b.op == 'num' and not b.free and not (b is ZERO) and not heads(b): pans.append((ilt(n, b), 'slice', span))
                elif b is ZERO or heads(b) <= {'str.at', 'strlen'} | heads(v): pass
                else: pans.append((as_bool(unk('boundary')), 'slice', span))
            return mk('app', 'str.slice', v), st, pans
        if v.unk: return None
        if name in STR or name in ('replace', 'replacen', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left_matches', 'trim_right_matches', 'repeat'): return mk('app', 'str.' + name, v), st, []
        if name in ('strip_prefix', 'strip_suffix'): return ite(as_bool(app('str.has', v, string(name))), some(mk('app', 'str.slice', v)), NONE), st, []
        if name in ('find', 'rfind'): return ite(as_bool(app('str.has', v, string(fmt_span(span)))), some(nat(mk('app', 'str.at', v, string(fmt_span(span))))), NONE), st, []
        if name in ('contains', 'starts_with', 'ends_with', 'is_char_boundary', 'eq_ignore_ascii_case'): return as_bool(app('str.has', v, string(fmt_span(span)))), st, []
        if name in ('truncate', 'pop', 'remove', 'insert', 'insert_str', 'retain', 'drain') and 'String' in path and name != 'truncate': return None
        return None
def I_write(m, st, ref, v): return m.I.write_ref(st, ref, v) if mrefs_in(ref) else st
def mrefs_in(r): return r.op == 'mref' or (r.op == 'ite' and any(l.op == 'mref' for l in leaves(r)))
def lift_leaves_app(m, name, v, span):
    return interp.lift_leaves(v, lambda l: l if l.op == 'unk' else m.fallible(span, name, l))

class FoldInterp(Interp):
    def __init__(s, prog):
        super().__init__(prog)
        s.models = FoldModels(s)
        s.key = None; s.keys = []; s.value_types = {}; s.slots = None; s.entry = {}; s.fallible = {}; s.refused = {}
    def cfg_loop(s, F, header, blocks, store):
        B = F.body
        names = {B.blocks[b]['t']['f']['fn']['name'] for b in blocks if B.blocks[b]['t']['k'] == 'call' and 'fn' in B.blocks[b]['t']['f']}
        if not names & {'next_key', 'next_entry'} or s.slots is not None: return super().cfg_loop(F, header, blocks, store)
        live = B.live[header] | B.mutb
        entry = {k: v for k, v in store.items() if k[0] != F.id or k[1] in live}
        def run(key, st):
            s.key = key
            try:
                save = s.panics; s.panics = []
                ex, pans = s.region(F, blocks, header, st, header)
                s.panics = save
            finally: s.key = None
            return ex, pans
        mod = {}
        for _ in range(6):
            cur = dict(entry); cur.update({k: as_bool(v) if v.a[-1] == 'bool' else v for k, v in mod.items()})
            grown = False; res = {}
            for key in s.keys:
                ex, pans = run(key, cur)
                for c, k, sp in pans: s.panic(c, k, sp)
                conts = [(c, x) for t, c, x in ex if t == header]
                if not conts: res[key] = (FALSE, {}, ex); continue
                cc = b_or(*[c for c, _ in conts]); nx = s.merge(conts)
                ch = {k: interp.refine(nx[k], interp.lits_of(cc)) for k in entry if k in nx}
                ch = {k: v for k, v in ch.items() if v is not cur[k]}
                for k in ch:
                    if k not in mod: mod[k] = fresh('bool' if s.sort_of(entry[k]) == 'bool' else 'any'); grown = True
                res[key] = (cc, ch, ex)
            if not grown: break
        s.slots = {key: (cc, {mod[k]: v for k, v in ch.items()}) for key, (cc, ch, ex) in res.items()}
        s.entry = {v: entry[k] for k, v in mod.items()}
        ex, pans = run(None, cur)
        for c, k, sp in pans: s.panic(c, k, sp)
        return [(t, c, x) for t, c, x in ex if t != header]

def setup(cx):
    if not hasattr(cx, 'fold'):
        cx.fold = None
        adt = cx.p.adts.get(FOLD)
        if not adt: raise Missing(FOLD)
        fs = {f['name']: f['ty'] for f in adt['variants'][0]['fields']}
        S = cx.method('Fold', 'serialize', 'Serialize'); D = cx.method('Fold', 'deserialize', 'Deserialize')
        I = FoldInterp(cx.p)
        with Limit(cx.limit): w, _, _ = I.summarize(S, ['x', 'serializer'], [sym('x'), None])
        I2 = FoldInterp(cx.p)
        written = []
        w = pay(w, 'Ok', '0') if w.op != 'unk' else w
        for l in leaves(w):
            for p in l.a[0] if l.op in ('lit', 'cat') else ():
                for e in (p.a[0] if p.op == 'lit' else ()) if l.op == 'cat' else (p,):
                    k = proj(e, '0')
                    if k.op == 'str' and k.a[0] not in written: written.append(k.a[0])
        I2.keys = list(dict.fromkeys([k for k, _, _ in SPEC] + written + [ODD]))
        with Limit(cx.limit): r, _, rp_ = I2.summarize(D, ['d'], [DOC])
        for J in (I, I2):
            cx.functions |= J.stats['functions']; cx.calls |= J.stats['calls']; cx.unmodelled |= J.stats['unmodelled']
        cx.fold = (fs, S, D, w, written, I2, r)
    return cx.fold
def where_written(w, key):
    """(under which condition the key is written, with which value)"""
    c, v = models.lookup(w, string(key), lambda a, b: boolc(a is b) if a.op == 'str' else unk('key'))
    return c, interp.refine(v, interp.lits_of(c)) if c is not FALSE else v
def read(I, r, keys):
    """the result of reading a document with exactly these keys"""
    m = dict(I.entry)
    for k in keys:
        cc, ch = I.slots[k]
        for v, x in ch.items(): m[v] = subst(x, I.entry)
    m = {v: x for v, x in m.items()}
    return subst(r, m)
def ask_slots(I):
    if I.slots is None: raise AnalysisError('no loop over the entries of the document was found')

STR = {'to_lowercase': str.lower, 'to_uppercase': str.upper, 'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper, 'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip}
def converts(cx, y, want, ti):
    """a value of the field's type that the conversion y of `want` changes"""
    rng = random.Random(cx.seed)
    def one(t, d=0):
        if isinstance(t, list): return tuple(one(t[0], d + 1) for _ in range(t[1] if len(t) > 1 else rng.randint(0, 3)))
        if t == 's': return rng.choice(('', 'a', 'Ab', ' c ', 'M', 'v'))
        if t == 'n': return rng.choice((F(0), F(1), F(-1), F(5, 2), F(1, 1000), F(10 ** 6) + F(1, 2), F(-7, 3)))
        if t == 'i': return F(rng.choice((0, 1, -1, 70000, 2 ** 31 - 1)))
        return None
    sh = shape(cx.p, ti) if ti is not None else None
    y2 = replace(y, {want: sym('#val')})
    funs = {'str.' + n: (lambda ev, x, g=g: g(x)) for n, g in STR.items()}
    for _ in range(60):
        v = one(sh)
        if v is None: return
        try: r = Ev({'#val': v}, funs=funs).ev(y2, {})
        except (NonFinite, Dead, Hang, Skip, KeyError, TypeError, AttributeError): continue
        if not same(r, v): return v, r

def field_of(v):
    return v.a[1] if v.op == 'proj' and v.a[0] is sym('x') else None
def empty(cx, ti): return Interp(cx.p).models.default(ti)
def c30(cx):
    def ser(): return cx.method('Fold', 'serialize', 'Serialize')
    def body(key, field):
        def f(ob):
            fs, S, D, w, written, I, r = setup(cx)
            if w.unk: ob.status = 'undecided'; ob.detail = 'the written document is not understood: %s' % show_short(w); return
            c, v = where_written(w, key)
            def bad(msg): ob.status = 'violated'; ob.detail = msg
            if v.op == 'struct' and cx.p.adts.get(v.a[0], {}).get('local'):
                I3 = FoldInterp(cx.p); q = [g for k_, fs_ in cx.p.impls.items() if k_[0] == 'serde::Serialize' and k_[1] == 'serialize' and k_[2] == v.a[0] for g in fs_ if g.get('span') == g.get('span')]
                if len(q) == 1:
                    with Limit(cx.limit): z, _, _ = I3.summarize(q[0], ['v', 's'], [v, None])
                    if isv(z, 'Ok') is TRUE: v = pay(z, 'Ok', '0')
            name = field_of(v) if v.op != 'dead' else None
            put = None
            if name is None and v.op != 'dead':
                uses = {z.a[1] for z in subterms(v) if field_of(z)}
                if len(uses) == 1: name = uses.pop(); put = v
            if c is FALSE or v.op == 'dead':
                other = [k for k in written if field_of(where_written(w, k)[1]) == field]
                return bad('no field is written under "%s"%s' % (key, '; %s is written under %s' % (field, ', '.join(map(repr, other))) if other else ''))
            if name is None: ob.status = 'undecided'; ob.detail = 'the value written under "%s" is %s' % (key, show_short(v)); return
            if field in fs and name != field: return bad('"%s" holds the field %s instead of %s' % (key, name, field))
            if twice_written(w, key): return bad('"%s" is written twice' % key)
            if c is not TRUE and not (only_default(c, v)): 
                if c.unk: ob.status = 'undecided'; ob.detail = 'the condition for writing "%s" is not understood' % key; return
                ob.status = 'violated' if skips_data(cx, S, key, name, c, v, fs.get(name)) else 'undecided'; ob.detail = '%s is not written when %s, although it may hold data then' % (name, show_short(b_not(c))); return
            ask_slots(I)
            if r.unk: ob.status = 'undecided'; ob.detail = 'the reader is not understood: %s' % show_short(r); return
            cc, ch = I.slots[key]
            if cc is FALSE: return bad('a document with the key "%s" is refused, although the writer produces it' % key)
            rest = [k for k in written if k != key and I.slots[k][0] is not FALSE]
            for others in ([], rest):
                x = read(I, r, others + [key])
                if isv(x, 'Ok') is FALSE: return bad('a document with the keys %s is refused' % (others + [key]))
                y = proj(pay(x, 'Ok', '0'), name)
                want = mk('app', 'value', string(key))
                if put is not None: y = replace(y, {want: put}); want = proj(sym('x'), name)
                if y is not want and mentions(y, want):      # a custom conversion: does it preserve every value?
                    q = converts(cx, y, want, fs.get(name))
                    if q: return bad('what %s holds does not survive: %s is read back as %s' % (name, rp(q[0]), rp(q[1])))
                if y.unk: ob.status = 'undecided'; ob.detail = 'the value read is not understood: %s' % show_short(y); return
                if y is not want:
                    if not mentions(y, want): return bad('what is written under "%s" is not read back into %s, which becomes %s' % (key, name, show_short(y)))
                    ob.status = 'undecided'; ob.detail = '%s is read as %s' % (name, show_short(y)); return
            ob.detail = 'written as "%s" from %s and read back into it%s' % (key, name, '' if c is TRUE else '; left out only when it holds the default')
        return f
    for key, field, _ in SPEC: cx.run('"%s"' % key, ser, 'the field %s is written under "%s" and read back from it' % (field, key), body(key, field))
    def extra(ob):
        fs, S, D, w, written, I, r = setup(cx)
        if w.unk: ob.status = 'undecided'; ob.detail = 'the written document is not understood'; return
        known = {k for k, _, _ in SPEC}
        for k in written:
            if k not in known: body(k, field_of(where_written(w, k)[1]))(ob)
            if ob.status == 'violated': return
        for k in written:
            if twice_written(w, k): ob.status = 'violated'; ob.detail = 'the key "%s" is written twice' % k; return
        fields = [field_of(where_written(w, k)[1]) for k in written]
        for f in fields:
            if f and fields.count(f) > 1: ob.status = 'violated'; ob.detail = 'the field %s is written under several keys: %s' % (f, [k for k, g in zip(written, fields) if g == f]); return
        ob.detail = '%d keys' % len(written)
    cx.run('no other key', ser, 'every further key that is written is read back, and no two fields share a key', extra)
def twice_written(w, key):
    def n(t):
        if t.op == 'lit': return sum(1 for e in t.a[0] if proj(e, '0') is string(key))
        if t.op == 'cat': return sum(n(p) for p in t.a[0])
        if t.op == 'ite': return max(n(t.a[1]), n(t.a[2]))
        return 0
    return n(w) > 1
def empties(v):
    """conditions under which v is certainly the default of its type"""
    return [ieq(length(v), ZERO), eq(v, ZERO), b_not(ine(length(v), ZERO)), ieq(nat(app('strlen', v)), ZERO), app_streq(v, string(''))]
def app_streq(a, b):
    return as_bool(app('streq', a, b) if a.id <= b.id else app('streq', b, a))
def only_default(c, v): return any(b_not(c) is x for x in empties(v))
def skips_data(cx, S, key, name, c, v, ti):
    """a value other than the default for which the entry is certainly left out"""
    if not mentions(c, v): return True
    t = cx.p.ty(ti) if ti is not None else {'k': '?'}
    if t['k'] == 'float': vals = [num(q) for q in (1, -1, 2, Fraction(1, 2), Fraction(11, 10))]
    elif t['k'] in ('int', 'uint'): vals = [num(q) for q in (1, -1, 2)]
    elif t['k'] == 'adt' and t['path'].endswith('String'): vals = [string('a'), string('ab')]
    else: vals = [lit([sym('e1')]), lit([sym('e1'), sym('e2')])]
    names = [f['name'] for f in cx.p.adts[FOLD]['variants'][0]['fields']]
    for x in vals:
        doc = struct(FOLD, tuple(names), tuple(x if n == name else proj(sym('x'), n) for n in names))
        with Limit(cx.limit): w, _, _ = FoldInterp(cx.p).summarize(S, ['x', 'serializer'], [doc, None])
        w = pay(w, 'Ok', '0') if w.op != 'unk' else w
        if w.op != 'unk' and where_written(w, key)[0] is FALSE: return True
    return False
def mentions(t, x):
    seen = set(); st = [t]
    while st:
        y = st.pop()
        if y is x: return True
        if y in seen: continue
        seen.add(y); st.extend(TM._kids(y.op, y.a))
        if y.op == 'ite': st.extend((y.a[0].a[1], y.a[1], y.a[2]))
    return False

# ------------------------------------------------------------------ C31
def shape(p, ti):
    t = p.ty(ti)
    if t['k'] == 'adt':
        l = t['path'].split('::')[-1]
        if l == 'String': return 's'
        if l in ('Vec', 'VecDeque'): return [shape(p, t['args'][0])]
        if l in ('Option', 'Box'): return shape(p, t['args'][0])
        return l
    if t['k'] == 'array':
        return [shape(p, t['t']), t.get('n', t.get('len'))]
    if t['k'] == 'tuple':
        ks = [shape(p, a) for a in t['args']]
        return [ks[0], len(ks)] if all(k == ks[0] for k in ks) else 'tuple'
    if t['k'] == 'float': return 'n'
    if t['k'] == 'int': return 'i' if t['name'] not in ('i8', 'i16') else t['name']
    return t.get('name', t['k'])
def fits(want, got):
    """does every document value of the wanted type parse as the type found (None: cannot tell)"""
    if want == got: return True
    if isinstance(want, list) and isinstance(got, list):
        if len(got) == 2 and len(want) == 2 and isinstance(want[1], int): return fits(want[0], got[0]) if (got[1] in (want[1], None)) else False
        if len(got) == 1: return fits(want[0], got[0])
        return False
    if want == 'n': return False if got in ('s', 'i', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'usize', 'bool', 'char') or isinstance(got, list) else None
    if want == 'i': return True if got == 'n' else False if got in ('s', 'bool', 'char', 'i8', 'i16', 'u8', 'u16') or isinstance(got, list) else None
    if want == 'z': return True if got in ('i', 'n') else False if got in ('s', 'bool', 'char', 'usize') or got[0] == 'u' or isinstance(got, list) else None
    if want == 's': return False if got in ('n', 'i', 'bool', 'char', 'u32', 'usize') or isinstance(got, list) else None
    return False if isinstance(got, str) and len(got) == 1 else None
def c31(cx):
    def de(): return cx.method('Fold', 'deserialize', 'Deserialize')
    def absent(key, field):
        def f(ob):
            fs, S, D, w, written, I, r = setup(cx); ask_slots(I)
            if r.unk: ob.status = 'undecided'; ob.detail = 'the reader is not understood: %s' % show_short(r); return
            known = [k for k, _, _ in SPEC if I.slots[k][0] is not FALSE]
            for doc in ([], [k for k in known if k != key], *[[k] for k in known if k != key]):
                x = read(I, r, doc)
                if isv(x, 'Ok') is FALSE: ob.status = 'violated'; ob.detail = 'a document with only the keys %s is refused: %s' % (doc, show_short(x)); return
                if isv(x, 'Ok') is not TRUE: ob.status = 'undecided'; ob.detail = show_short(isv(x, 'Ok')); return
                if field not in fs: continue
                y = proj(pay(x, 'Ok', '0'), field)
                if y.unk: ob.status = 'undecided'; ob.detail = 'the value of %s is not understood: %s' % (field, show_short(y)); return
                e = empty(cx, fs[field])
                if y is not e:
                    ob.status = 'violated'; ob.detail = 'without "%s", and with the keys %s, %s becomes %s instead of being empty' % (key, doc, field, show_short(y)); return
            ob.detail = '%s is %s without the key' % (field, show_short(empty(cx, fs[field])) if field in fs else '-')
        return f
    def typed(key, want):
        def f(ob):
            fs, S, D, w, written, I, r = setup(cx); ask_slots(I)
            tys = I.value_types.get(key) or []
            if I.slots[key][0] is FALSE: ob.status = 'violated'; ob.detail = 'a document with "%s" is refused' % key; return
            if not tys:
                ob.status = 'violated' if not I.slots[key][1] else 'undecided'; ob.detail = 'the value of "%s" is not read' % key; return
            for ti in tys:
                got = shape(cx.p, ti); ok_ = fits(want, got)
                if ok_ is False: ob.status = 'violated'; ob.detail = '"%s" is read as %s; FOLD specifies %s' % (key, got, want); return
                if ok_ is None: ob.status = 'undecided'; ob.detail = '"%s" is read as %s' % (key, got); return
            ob.detail = 'read as %s' % shape(cx.p, tys[0])
        return f
    for key, field, want in SPEC:
        cx.run('"%s" optional' % key, de, 'a document without "%s" parses and %s is empty' % (key, field), absent(key, field))
        cx.run('"%s" type' % key, de, 'the value is read as %s (n number, i id, z integer of either sign, s string)' % (want,), typed(key, want))
    def odd(ob):
        fs, S, D, w, written, I, r = setup(cx); ask_slots(I)
        cc, ch = I.slots[ODD]
        if cc is FALSE: ob.status = 'violated'; ob.detail = 'a document with an unknown key is refused'; return
        if cc is not TRUE: ob.status = 'undecided'; ob.detail = show_short(cc); return
        a, b = read(I, r, [ODD]), read(I, r, [])
        if a is not b: ob.status = 'violated' if not a.unk else 'undecided'; ob.detail = 'an unknown key changes the document: %s' % show_short(a)
    cx.run('unknown keys', de, 'an unknown key is skipped', odd)

# ------------------------------------------------------------------ C32
def c32(cx):
    fn = lambda: cx.fn(FOLD + '::from_file')
    st = {}
    def summ():
        if 'r' not in st:
            I = FoldInterp(cx.p); I.slots = {}
            with Limit(cx.limit): st['r'] = I.summarize(fn(), ['path'], [sym('path')]) + (I,)
            cx.functions |= I.stats['functions']; cx.calls |= I.stats['calls']; cx.unmodelled |= I.stats['unmodelled']
        return st['r']
    def nopanic(ob):
        ret, _, pans, I = summ()
        pans = [(c, k, sp) for c, k, sp in pans if c is not FALSE]
        if pans:
            c, k, sp = pans[0]
            ob.status = 'undecided' if c.unk else 'violated'; ob.detail = '%s at %s when %s' % (k, fmt_span(sp), show_short(c))
        elif ret.unk: ob.status = 'undecided'; ob.detail = show_short(ret)
    cx.run('from_file never panics', fn, 'no panic site is reachable, whatever the file', nopanic)
    def errors(ob):
        ret, _, pans, I = summ()
        if not I.fallible: ob.status = 'undecided'; ob.detail = 'no input operation recognised'; return
        n = len(I.fallible)
        if ret.unk: ob.status = 'undecided'; ob.detail = 'the result is not understood: %s' % show_short(ret); return
        tests = {isv(t, 'Ok').a[0]: (t, sp) for t, sp in I.fallible.items() if isv(t, 'Ok').op == 'ite'}
        for lits, leaf in ok_paths(ret, []):
            for at_, v in lits:
                if v or at_ not in tests: continue
                r = ret
                for a2, v2 in lits: r = restrict(r, a2, v2 or a2 is at_)
                if r is leaf: continue            # the operation does not matter here: it is not performed
                t, sp = tests[at_]
                ob.status = 'violated'; ob.detail = 'when %s fails (%s), a document is returned: %s' % (WHAT.get(t.a[0], t.a[0]), fmt_span(sp), show_short(leaf)); return
        ob.detail = '%d fallible input operations, each of whose failures yields Err' % n
    cx.run('every failure is reported', fn, 'when opening, reading, decoding or parsing fails, the result is Err', errors)
    def whole(ob):
        ret, _, pans, I = summ()
        oks = [l for l in leaves(ret) if l.op == 'enum' and l.a[1] == 'Ok']
        if ret.unk or any(l.op not in ('enum', 'app') for l in leaves(ret)): ob.status = 'undecided'; ob.detail = 'the result is not understood: %s' % show_short(ret); return
        def complete_(lits, x):      # a parse followed by a successful check for the end of the input is a parse of the whole input
            m = {}
            for y in subterms(x):
                if y.op == 'app' and y.a[0] == 'json.prefix':
                    e = isv(mk('app', 'json.end', y.a[1]), 'Ok')
                    if e.op == 'ite' and (e.a[0], True) in lits: m[y] = mk('app', 'json', y.a[1])
            return replace(x, m) if m else x
        docs = [complete_(ls, x) for ls, l in ok_paths(ret, []) if l.op == 'enum' for x in leaves(l.a[3][0])] + [pay(l, 'Ok', '0') for l in leaves(ret) if l.op == 'app']
        if not docs: ob.status = 'violated'; ob.detail = 'no file yields a document'; return
        f = pay(mk('app', 'io.open', sym('path')), 'Ok', '0')
        texts = {mk('app', 'text', f), mk('app', 'bytes', f), mk('app', 'decoded', mk('app', 'bytes', f))}
        good = {pay(mk('app', n, x), 'Ok', '0') for x in texts for n in ('json', 'io.json')}
        for d in docs:
            if d in good: continue
            apps = heads(d)
            if 'partial' in apps or 'lossy' in apps or 'drained' in apps or CHANGED & apps:
                ob.status = 'violated'; ob.detail = 'the document is parsed from %s' % show_short(d); return
            if not apps & {'json', 'io.json'}: 
                ob.status = 'undecided' if d.unk else 'violated'; ob.detail = 'a result that does not come from parsing the file is returned: %s' % show_short(d); return
            base = [x for x in subterms(d) if x in good]
            if base and d.op == 'struct' and d.a[0] == FOLD:
                ch = [n for n, y in zip(d.a[1], d.a[2]) if y is not proj(base[0], n)]
                ob.status = 'violated'; ob.detail = 'the fields %s are changed after parsing: %s' % (', '.join(ch), show_short(proj(d, ch[0])) if ch else ''); return
            src = [y for y in subterms(d) if y.op == 'app' and y.a[0] in ('json', 'io.json')]
            if src and all(y.a[1].op == 'str' for y in src):
                ob.status = 'violated'; ob.detail = 'a document that does not come from the file is returned: %s' % show_short(d); return
            ob.status = 'undecided'; ob.detail = 'the document is %s' % show_short(d); return
        ob.detail = 'the document is what the whole content of the file opened at the given path parses to'
    cx.run('the document is the whole file', fn, 'the result is the parse of the complete content of the file at the given path', whole)
CHANGED = {'path.with_extension', 'path.with_file_name', 'path.join', 'path.parent', 'path.file_name', 'path.file_stem', 'str.lines', 'str.to_lowercase', 'str.to_uppercase', 'str.to_ascii_lowercase', 'str.to_ascii_uppercase', 'str.replace', 'str.replacen', 'str.slice', 'str.trim_matches', 'str.trim_start_matches', 'str.trim_end_matches', 'json.prefix', 'append'}
def ok_paths(t, lits):
    if t.op == 'ite':
        yield from ok_paths(t.a[1], lits + [(t.a[0], True)]); yield from ok_paths(t.a[2], lits + [(t.a[0], False)])
    elif isv(t, 'Ok') is not FALSE and not (t.op == 'app' and t.a[0] in ('json', 'io.json')): yield lits, t
WHAT = {'io.open': 'opening the file', 'io.read': 'reading the file', 'io.bytes': 'reading the file', 'json': 'parsing', 'io.json': 'reading or parsing', 'utf8': 'decoding', 'io.part': 'reading', 'io.meta': 'querying the file', 'json.prefix': 'parsing', 'json.end': 'parsing'}
def subterms(t):
    seen = set(); st = [t]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y); st.extend(TM._kids(y.op, y.a))
        if y.op == 'ite': st.extend((y.a[0].a[1], y.a[1], y.a[2]))
    return seen
def heads(t): return {y.a[0] for y in subterms(t) if y.op == 'app'}
PROPS = {'C30': c30, 'C31': c31, 'C32': c32}
