#!/usr/bin/env python3
"""Decide one property on /repo's current tree:  check.py <ID> [--program dump.json] [--verbose]"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json, time, argparse, threading, resource
import dump
from core import *
import props, shrink
from interp import word

VERIF = dump.VERIF
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--program'); ap.add_argument('-v', action='store_true'); ap.add_argument('--tier')
    a = ap.parse_args()
    t0 = time.time()
    try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))     # a summary that explodes ends as undecided
    except (ValueError, OSError): pass                              # a stricter limit is already in force
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError: seed = 1
    d = json.load(open(a.program)) if a.program else dump.dump()
    cx = Ctx(Program(d), a.prop, tier, seed)
    cx.d = d; cx.known = known_findings(a.prop)
    spec = props.PROPS[a.prop]
    top = None
    try: spec(cx)
    except Missing as e: top = e
    if top is None: past_thresholds(cx, d, a, tier, seed, spec)
    sys.exit(report(cx, a, tier, seed, t0, top))

def past_thresholds(cx, d, a, tier, seed, spec):
    """what is undecided because of a size threshold in the code is decided on a copy with small thresholds"""
    if a.prop not in shrink.PROPS or not any(o.status == 'undecided' for o in cx.obs) or time.time() - cx.t0 > 300: return
    r = shrink.program(d, word)
    if not r: return
    c2 = Ctx(Program(r[0]), a.prop, tier, seed); c2.d = r[0]; c2.known = cx.known
    try: spec(c2)
    except Missing: return
    first = {o.name: o for o in cx.obs}
    for o in c2.obs:
        x = first.get(o.name)
        if x and x.status == 'undecided' and o.status == 'violated' and o.key not in cx.known:
            x.status = 'violated'; x.key = o.key; x.evals += o.evals
            x.detail = 'past the size threshold at %s: %s' % (', '.join('%s (%s)' % y for y in r[1][:4]), o.detail) + '\n  (shown with small thresholds in its place)'
            x.code = getattr(o, 'code', None); x.spec = getattr(o, 'spec', None)

GEN = 'Static analysis of the MIR of /repo (crate kami) as of this run. '
def explanation(P):
    if P == 'C40': return GEN + 'Every natural loop and recursive group of the functions reachable from the public API is an obligation: holds = a finite-iterator or ranking argument was found for every input; violated = the cycle cannot be left, every path recurses, or the state of the loop repeats for an admissible argument; undecided = neither.'
    if P == 'C41': return GEN + 'Every public function is an obligation: holds = no source of nondeterminism (clock, environment, threads, randomness, addresses, mutable statics, hash iteration order) flows into its result, a mutable argument or a panic, by data or by control, through its call graph; the remaining obligations list the calls that act on the outside world.'
    if P in ('C30', 'C31'): return GEN + 'The derived reader and writer of the document are summarised per field and per key, for arbitrary contents, and compared with the tables the property prescribes. undecided = the code uses a construct outside the models; it raises no alarm.'
    if P == 'C32': return GEN + 'The fallible operations of the loader are enumerated; on every path to an Ok result each must have succeeded, and the parsed text must be the contents of the given file. undecided = the code uses a construct outside the models; it raises no alarm.'
    return GEN + 'Every obligation compares a summary of the named function, computed by dataflow over its current MIR, with what the property prescribes. holds = the canonical forms are identical (for every input); violated = the forms differ and the structure shown separates them; undecided = they differ and no admissible structure separates them, which raises no alarm.'
def known_findings(P):
    f = os.path.join(VERIF, 'known_findings.txt'); keys = {}
    for l in open(f) if os.path.exists(f) else ():
        if l.startswith('known: property=%s ' % P):
            k, _, text = l.split(' key=', 1)[1].partition(' :: ')
            keys[k.strip()] = text.strip()
    return keys
def report(cx, a, tier, seed, t0, top):
    P = a.prop
    if top is not None:
        o = Ob('anchor', None, 'the public items the property is about exist'); o.status = 'violated'; o.key = 'missing:' + str(top)
        o.detail = 'the public item this property is about does not exist any more: %s' % top; cx.obs.append(o)
    keys = known_findings(P)
    bad = []; seen = []
    for o in cx.obs:
        if o.status == 'violated':
            if o.key in keys:
                if o.key not in seen: seen.append(o.key)
                o.status = 'known finding'
            else: bad.append(o)
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    for k in seen: print('KNOWN-FINDING: property=%s %s' % (P, keys[k]))
    cnt = {}
    for o in cx.obs: cnt[o.status] = cnt.get(o.status, 0) + 1
    rep = os.path.join(ev, '%s.violation.txt' % P)
    if os.path.exists(rep): os.unlink(rep)
    out = {'property': P, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
        'coverage': {
            'explanation': explanation(P),
            'obligations': len(cx.obs), 'holds': cnt.get('holds', 0), 'undecided': cnt.get('undecided', 0), 'violated': len(bad), 'known_findings': len(seen),
            'functions_analysed': sorted(cx.functions), 'call_targets_resolved': len(cx.calls), 'loops': cx.loops, 'calls_without_a_model': sorted(cx.unmodelled),
            'structures_interpreted': sum(o.evals for o in cx.obs),
            'samples': [o.row() for o in cx.obs]},
        'assumptions': ['arithmetic is over exact reals: rounding, overflow and NaN propagation are outside the model unless an obligation says otherwise',
            'MIR produced by the installed nightly rustc, and the models of std/num_traits/approx/nalgebra-glm calls in sa/models.py']}
    json.dump(out, open(os.path.join(ev, P + '.json'), 'w'), indent=1, default=str)
    if a.v:
        for o in cx.obs: print('%-10s %-60s %s' % (o.status, o.name, o.detail if o.status not in ('holds',) else ''))
    print('%s: %d obligations, %s  (%.1f s)' % (P, len(cx.obs), ', '.join('%d %s' % (v, k) for k, v in sorted(cnt.items(), key=str)), time.time() - t0))
    if bad:
        with open(rep, 'w') as f:
            for o in bad:
                f.write('property %s violated\nobligation: %s\nsite: %s\nrule: %s\n%s\n' % (P, o.name, o.site, o.rule, o.detail))
                if getattr(o, 'code', None): f.write('summary of the code : %s\nrequired            : %s\n' % (o.code, o.spec))
                f.write('\n')
        for o in bad[:5]: print('  %s at %s: %s' % (o.name, o.site, o.detail.split('\n')[0]))
        print('VIOLATION property=%s replay=%s' % (P, rep))
        return 1
    return 0
if __name__ == '__main__': main()
