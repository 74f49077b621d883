"""Obligations: what is compared with what, how a difference is certified, and how it is reported."""
import os, sys, json, time, random, signal, traceback
from fractions import Fraction
from terms import *
import terms as TM
import interp
from interp import Program, Interp
from eval import Ev, NF, Rec, Var, NonFinite, Dead, Hang, Skip, same, diffpath, rp

class Timeout(Exception): pass
class Missing(Exception): pass
class AnalysisError(Exception): pass
PRE = mk('enum', 'pre', 'outside the precondition', (), ())
F = Fraction
ADMISSIBLE_PANIC = object()

class Summary:
    def __init__(s, fn, ret, muts, panics, I, names): s.fn = fn; s.ret = ret; s.muts = muts; s.panics = panics; s.I = I; s.names = names

class Limit:
    """wall-clock limit for one analysis step"""
    def __init__(s, sec): s.sec = sec
    def __enter__(s):
        def h(*a): raise Timeout('analysis time limit of %d s' % s.sec)
        s.old = signal.signal(signal.SIGALRM, h); signal.alarm(s.sec)
    def __exit__(s, *a):
        signal.alarm(0); signal.signal(signal.SIGALRM, s.old)

class Ob:
    def __init__(s, name, fn, rule): s.name = name; s.fn = fn; s.rule = rule; s.status = None; s.detail = ''; s.site = ''; s.evals = 0; s.key = ''
    def row(s): return {'obligation': s.name, 'site': s.site, 'rule': s.rule, 'verdict': s.status, 'detail': s.detail[:1500], 'evaluations': s.evals}

class Ctx:
    def __init__(s, prog, prop, tier='quick', seed=1):
        s.p = prog; s.prop = prop; s.tier = tier; s.seed = seed
        s.obs = []; s.functions = set(); s.calls = set(); s.loops = {}; s.unmodelled = set()
        s.trials = 250 if tier == 'quick' else 4000
        s.limit = 150 if tier == 'quick' else 600
        s.known = []; s.notes = []
        s.cache = {}
        s.roles = None
        s.t0 = time.time()
    # ------------------------------------------------------------ anchors
    def fn(s, path):
        c = [f for f in s.p.d['fns'] if f['path'] == path and 'body' in f]
        if not c: raise Missing(path)
        return c[0]
    def method(s, adt, name, trait=None, arg=None):
        c = s.p.method(adt, name, trait, arg)
        if not c: raise Missing('%s::%s%s' % (adt, name, ' (impl %s%s)' % (trait, '<%s>' % arg if arg else '') if trait else ''))
        return c[0]
    def site(s, fn): return '%s (%s)' % (fn['path'] + ((' as ' + fn['trait'].split('::')[-1]) if fn.get('trait') else ''), span(fn))
    def summ(s, fn, names, args=None, opaque=None, words=False):
        key = (words, fn['key'], tuple(names), tuple(args) if args else None, tuple(sorted((opaque or {}).items(), key=str)))
        if key in s.cache:
            r = s.cache[key]
            if isinstance(r, Exception): raise r
            return r
        I = Interp(s.p, opaque=opaque, words=words)
        try:
            with Limit(s.limit): ret, muts, pan = I.summarize(fn, names, args)
            r = Summary(fn, ret, muts, pan, I, names)
            if any(t.free for t in [ret] + list(muts.values()) + [c for c, _, _ in pan]): raise AnalysisError('a loop variable of %s escaped its loop' % fn['path'])
        except Exception as e:
            s.cache[key] = e; raise
        s.cache[key] = r
        s.functions |= I.stats['functions']; s.calls |= I.stats['calls']; s.unmodelled |= I.stats['unmodelled']
        for k, v in I.loopinfo.items(): s.loops['%s %s' % k] = v['kind']
        return r
    # ------------------------------------------------------------ comparison
    def run(s, name, fn, rule, f):
        """run one obligation body f(ob) -> None; analysis failures make it inconclusive, a missing anchor is a violation"""
        ob = Ob(name, fn, rule); s.obs.append(ob)
        try:
            if callable(fn): fn = ob.fn = fn()
            if fn is not None: ob.site = s.site(fn)
            f(ob)
            if ob.status is None: ob.status = 'holds'
        except Missing as e:
            ob.status = 'violated'; ob.key = 'missing:' + str(e); ob.detail = 'the public item this property is about does not exist any more: %s' % e
        except Timeout as e: ob.status = 'undecided'; ob.detail = str(e)
        except Exception as e:
            ob.status = 'undecided'; ob.detail = 'analysis failed: %r\n%s' % (e, traceback.format_exc()[-1500:])
        return ob
    def eq(s, name, fn, actual, spec, rule, dom=None, pre=TRUE, judge=None, eps=(F(1, 4),), funs=None, alts=()):
        """obligation: the summary component actual(fn) has the canonical form spec"""
        def body(ob):
            f = ob.fn
            a = actual(f) if callable(actual) else actual
            sp = spec(f) if callable(spec) else spec
            al = alts(f) if callable(alts) else alts
            s.compare(ob, f, a, sp, dom, pre, judge, eps, funs, al)
        return s.run(name, fn, rule, body)
    def compare(s, ob, fn, a, sp, dom, pre=TRUE, judge=None, eps=(F(1, 4),), funs=None, alts=()):
        with Limit(s.limit):
            for x in alts:
                if a is x or (pre is not TRUE and guard(pre, a) is guard(pre, x)):
                    ob.status = 'holds'; ob.detail = 'canonical forms are identical'; return
            if getattr(judge, 'identity', True) and (a is sp or (pre is not TRUE and guard(pre, a) is guard(pre, sp))):
                ob.status = 'holds'; ob.detail = 'canonical forms are identical'; return
        if judge is None and a.op == sp.op and a.op in ('struct', 'enum') and a.a[:2] == sp.a[:2] and sp.a[-1]:
            names = a.a[1] if a.op == 'struct' else a.a[2]
            bad = [(n, x, y) for n, x, y in zip(names, a.a[-1], sp.a[-1]) if guard(pre, x) is not guard(pre, y)]
            for n, x, y in bad:
                s.separate(ob, fn, x, y, dom, pre, judge, eps, funs, '.' + n)
                if ob.status == 'violated': return
            return
        s.separate(ob, fn, a, sp, dom, pre, judge, eps, funs, '')
    def separate(s, ob, fn, a, sp, dom, pre, judge, eps, funs, comp):
        """look for an admissible structure on which the two canonical forms denote different values"""
        if dom is None:
            ob.status = 'undecided'; ob.detail = 'canonical forms differ'; return
        hints = Hints([a, sp, pre])
        rng = random.Random('%s/%s/%s' % (s.seed, ob.name, comp))
        done = 0; why = {}; hit = None
        t0 = time.time(); budget = 60 if s.tier == 'quick' else 240
        for i in range(s.trials * 6):
            # the forms differ: look further while no admissible structure tells them apart
            if time.time() - t0 > budget or i >= s.trials and (hit or time.time() - t0 > budget / 3 or time.time() - s.t0 > 2 * budget): break
            try:
                val = dom(rng, hints, i)
                if val is None: continue
                ev = Ev(val, eps=eps[i % len(eps)], funs=funs)
                if pre is not TRUE and not ev.ev(pre, {}): continue
                y = ev.ev(sp, {})
            except (NonFinite, Dead, Hang, Skip) as e:
                why['spec: ' + type(e).__name__ + ' ' + str(e)] = why.get('spec: ' + type(e).__name__ + ' ' + str(e), 0) + 1
                continue
            try:
                pe = Ev(val, eps=eps[i % len(eps)], funs=funs, poison=True); x = pe.ev(a, {})
                if pe.tossed:       # a test on a non-finite number: both ways, and neither may give a finite result
                    if not nonfinite(x) or not nonfinite(Ev(val, eps=eps[i % len(eps)], funs=funs, poison=True, toss=True).ev(a, {})): raise NonFinite
            except Hang: x = 'no result: the loop never terminates'
            except (NonFinite, Dead, Skip) as e:
                why[type(e).__name__ + ' ' + str(e)] = why.get(type(e).__name__ + ' ' + str(e), 0) + 1
                continue
            done += 1
            msg = None
            if judge is not None and not (isinstance(x, str) and x.startswith('no result')):
                try: r = judge(ev, val, x, y)
                except NonFinite as e:
                    if not nonfinite(x): done -= 1; why['judge: NonFinite'] = why.get('judge: NonFinite', 0) + 1; continue
                    r = 'the result has an infinite or NaN component, the property requires finite ones: %s' % rp(x)
                except Skip as e:
                    done -= 1; why['Skip ' + str(e)] = why.get('Skip ' + str(e), 0) + 1; continue
                if r: msg = r
            elif isinstance(x, str) or not same(x, y):
                if isinstance(x, str): p, u, v = '', x, y
                else: p, u, v = diffpath(x, y)
                msg = 'component `%s`: the code yields %s, the property requires %s' % ((comp + p) or 'result', rpu(u), rpu(v))
            if msg:
                if isinstance(msg, tuple):
                    key, msg = msg
                    if key in s.known:      # a recorded finding: keep looking for anything else
                        hit = hit or (key, msg, val); continue
                    ob.key = key
                ob.status = 'violated'; ob.evals += done
                ob.detail = '%s\n  for %s%s' % (msg, ', '.join('%s = %s' % (k, rp(v)) for k, v in sorted(val.items())), '' if ev.eps == F(1, 4) else '  (epsilon = %s)' % ev.eps)
                ob.code = show_short(a); ob.spec = show_short(sp)
                return
        ob.evals += done
        if done == getattr(dom, 'cases', -1) and not hit and not why and pre is TRUE:
            if ob.status is None: ob.status = 'holds'
            ob.detail += 'the forms agree in each of the %d cases of the finite domain' % done; return
        if hit:
            ob.status = 'violated'; ob.key = hit[0]; ob.detail = '%s\n  for %s' % (hit[1], ', '.join('%s = %s' % (k, rp(v)) for k, v in sorted(hit[2].items()))); return
        if ob.status is None or ob.status == 'holds': ob.status = 'undecided'
        ob.detail += 'canonical forms%s differ, but %d admissible structures interpret them alike (%s)\n' % (' of ' + comp if comp else '', done, why)
        if a.unk: ob.detail += 'the summary is incomplete: %s\n' % unk_reasons(a)
    def panics(s, name, fn, summ, allowed, rule, dom, kinds=None, funs=None, refute=None, eps=(F(1, 4),)):
        """obligation: every panic condition of the summary implies `allowed`"""
        def body(ob):
            sm = summ(ob.fn) if callable(summ) else summ
            n = 0
            for c, kind, sp in sm.panics:
                n += 1
                bad = b_and(c, b_not(allowed))
                if bad is FALSE or refute is not None and refute(bad) or Refuter().refute(bad): continue
                o2 = Ob(ob.name, ob.fn, ob.rule)
                s.separate(o2, ob.fn, bad, FALSE, dom, TRUE, None, eps, funs, '')
                ob.evals += o2.evals
                if o2.status == 'violated':
                    ob.status = 'violated'; ob.key = 'panic:' + kind
                    ob.detail = '`%s` at %s can fail%s' % (kind, fmt_span(sp), o2.detail.split('\n', 1)[1] if '\n' in o2.detail else '')
                    return
                if o2.status == 'holds': continue
                ob.status = 'undecided'; ob.detail += 'panic `%s` at %s not excluded: %s; ' % (kind, fmt_span(sp), o2.detail)
            if ob.status is None: ob.status = 'holds'; ob.detail = '%d panic sites, none reachable' % n
        return s.run(name, fn, rule, body)
    def fact(s, name, fn, rule, f):
        """structural obligation: f(ob) returns a list of violations (strings) — empty when the rule holds"""
        def body(ob):
            bad = f(ob)
            if bad:
                ob.status = 'violated'; ob.detail = '\n  '.join(bad[:20]); ob.key = bad[0]
        return s.run(name, fn, rule, body)

def nonfinite(v):
    if v is NF: return True
    if isinstance(v, (Rec, Var)): return any(map(nonfinite, v.vals))
    return isinstance(v, tuple) and any(map(nonfinite, v))

class Refuter:
    """No path of a boolean diagram to true is feasible: integer literals along a path are combined linearly (up to three
    of them) with the bounds of the index variables; `exists` and `has it happened in the loop` are opened."""
    def __init__(s, cap=20000): s.n = cap
    def impossible(s, p, c, lits):
        """p <= c contradicts the literals (each read as q <= d)"""
        if TM.prove_le(pscale(p, -1), -c - 1): return True
        vs = {v for m, _ in p for v, _ in m}
        near = [(q, d) for q, d in lits if vs & {v for m, _ in q for v, _ in m}]
        for i, (q, d) in enumerate(near):
            r = padd(p, q)
            if TM.prove_le(pscale(r, -1), -c - d - 1): return True
            for q2, d2 in lits:
                if TM.prove_le(pscale(padd(r, q2), -1), -c - d - d2 - 1): return True
        return False
    def same(s, a, b, lits):
        """are two arguments provably equal under the literals?"""
        if a is b: return True
        intlike = lambda x: x.op in ('num', 'first', 'last', 'len', 'sum', 'fresh', 'sym', 'bv') and TM.is_poly(x)
        if intlike(a) and intlike(b) and 'num' in (a.op, b.op):
            d = padd(TM.rpoly(a), TM.rpoly(b), -1)
            return s.impossible(d, -1, lits) and s.impossible(pscale(d, -1), -1, lits)
        return False
    def congruent(s, q, v, facts, lits):
        """a boolean application known with the other value, at arguments that are provably the same"""
        for r, w in facts:
            if w != v and r.op == q.op and len(r.a) == len(q.a) and all(x is y or isinstance(x, TM.T) and isinstance(y, TM.T) and s.same(x, y, lits) for x, y in zip(q.a, r.a)): return True
        return False
    def refute(s, t, lits=(), facts=()):
        if t is FALSE: return True
        s.n -= 1
        if t.op != 'ite' or s.n < 0: return False
        k, q, c, _ = t.a[0].a
        for v, b in ((True, t.a[1]), (False, t.a[2])):
            if b is FALSE: continue
            l2 = list(lits); f2 = facts
            if k == 'b' and q.op in ('app', 'at'):
                if s.congruent(q, v, facts, l2): continue
                f2 = facts + ((q, v),)
            if k == 'le' and TM.is_poly(q):
                p, d = TM.rpoly(q), c
                if not v: p, d = pscale(p, -1), -c - 1
                if s.impossible(p, d, l2): continue
                l2.append((p, d))
            elif k == 'b' and v and q.op == 'exists':
                w = fresh('nat'); TM.BOUND[w] = q.a[0]
                if s.refute(TM.open_(q, w), lits, facts): continue
            elif k == 'b' and v and q.op == 'rec' and q.a[0][0] is FALSE:
                ins, vs, nx, cont = TM.rec_open(q)
                for x, y in zip(vs, ins):
                    if x.a[-1] == 'nat': TM.nat(x) if hasattr(TM, 'nat') else None
                if TM.subst(nx[0], {vs[0]: TRUE}) is TRUE and s.refute(b_and(TM.subst(cont, {vs[0]: FALSE}), TM.subst(nx[0], {vs[0]: FALSE})), lits, facts): continue
            if not s.refute(b, l2, f2): return False
        return True
def rpu(v): return v if isinstance(v, str) else rp(v)
def guard(pre, t):
    if pre is TRUE: return t
    if t.op == 'struct': t = mk('lit', (t,))      # keep the aggregate whole
    return ite(pre, t, PRE)
def unk_reasons(t):
    out = {}; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen or not x.unk: continue
        seen.add(x)
        if x.op == 'unk': out[x.a[0]] = 1
        st.extend(TM._kids(x.op, x.a))
    return ', '.join(list(out)[:6])
def show_short(t):
    n = size(t, 300)
    if n >= 300: return '(a form with more than 300 distinct subterms)'
    try:
        r = show(t)
    except RecursionError: r = '...'
    return r[:1200]
def size(t, cap):
    """distinct subterms of t, counted up to cap"""
    seen = set(); st = [t]
    while st and len(seen) < cap:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st.extend(TM._kids(x.op, x.a))
        if x.op == 'ite': st.extend((x.a[0].a[1], x.a[1], x.a[2]))
    return len(seen)
def span(fn):
    sp = fn.get('span')
    return fmt_span(sp)
def fmt_span(sp):
    if isinstance(sp, (list, tuple)): return ':'.join(str(x) for x in sp[:2])
    return str(sp)

class Hints:
    """constants that occur in the compared forms: they steer the finite structures towards special cases in the code"""
    def __init__(s, ts):
        s.ints = set(); s.nums = set()
        seen = set(); st = list(ts)
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'ite':
                k, q, c, _ = x.a[0].a
                if k == 'le':
                    for d in (-1, 0, 1, 2): s.ints.add(abs(int(c)) + d)
                st += [q, x.a[1], x.a[2]]; continue
            if x.op == 'num':
                for p in x.a:
                    for m, c in p:
                        if m == () and c != 0:
                            s.nums.add(abs(c))
                            if c.denominator == 1 and abs(c) < 300:
                                for d in (-1, 0, 1): s.ints.add(int(abs(c)) + d)
                        elif c != 1 and c != -1 and c != 2 and c != -2: s.nums.add(abs(c))
                    if len(p) > 1:   # ratios constant/leading coefficient: thresholds like 3*x - 7
                        cs = [c for m, c in p if m == ()]
                        if cs:
                            for m, c in p:
                                if m != (): s.nums.add(abs(cs[0] / c))
            st.extend(TM._kids(x.op, x.a))
        s.ints = sorted(i for i in s.ints if 0 <= i < 300)
        s.big = [i for i in s.ints if i > 6]
        s.nums = sorted(n for n in s.nums if n < 10 ** 9)[:40]
    def number(s, rng):
        r = rng.random()
        if r < 0.55: return F(rng.randint(-4, 4))
        if r < 0.75: return F(rng.randint(-40, 40), rng.choice((2, 4, 8, 10)))
        if r < 0.85 and s.nums:
            x = rng.choice(s.nums) * rng.choice((1, -1)); return x + rng.choice((0, 0, F(1, 100), -F(1, 100), 1, -1))
        if r < 0.93: return F(rng.randint(-1000, 1000))
        return F(0)
    def size(s, rng, cap=7):
        r = rng.random()
        if r < 0.12 and s.big: return rng.choice(s.big) + rng.choice((0, 0, 1, 4))
        return rng.randint(0, cap)
    def index(s, rng, n):
        r = rng.random()
        if r < 0.7 and n > 0: return F(rng.randrange(n))
        if r < 0.8 and s.ints: return F(rng.choice(s.ints))
        return F(rng.choice((0, n, n + 1, max(n - 1, 0), n + 5)))
