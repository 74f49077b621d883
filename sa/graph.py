"""C20-C27: the planar graph."""
from core import *
import nan
from geometry import vsub, vdot, dist, seg_params, X, Y, inbox
GP = 'graph::planar_graph::'
GEPS = (F(1, 64),)

# ------------------------------------------------------------------ the data type, by role
class G:
    """PlanarGraph seen through its field types, so that renamed or reordered fields do not matter"""
    def __init__(s, cx):
        s.cx = cx; p = cx.p
        def adt(n):
            a = p.adts.get(GP + n) or next((v for k, v in p.adts.items() if k.split('::')[-1] == n and k.startswith('graph::')), None)
            if not a: raise Missing(GP + n)
            return a
        def fields(a): return [(f['name'], f['ty'], f['vis']) for f in a['variants'][0]['fields']]
        g, nd, ed = adt('PlanarGraph'), adt('Node'), adt('Edge')
        s.gp, s.np, s.ep = g['path'], nd['path'], ed['path']
        s.gf, s.nf, s.ef = fields(g), fields(nd), fields(ed)
        def one(fs, pred, what):
            c = [n for n, t, _ in fs if pred(p.ty(t))]
            if len(c) != 1: raise Skip('field %s is not identifiable' % what)
            return c[0]
        def vec_of(path): return lambda t: t['k'] == 'adt' and t['path'].split('::')[-1] == 'Vec' and p.ty(t['args'][0]).get('path') == path
        s.nodes = one(s.gf, vec_of(s.np), 'nodes'); s.edges = one(s.gf, vec_of(s.ep), 'edges')
        isp = lambda t: t['k'] == 'param'; iss = lambda t: t['k'] == 'adt' and t['path'].endswith('String')
        s.pos = one(s.nf, lambda t: t['k'] == 'adt' and 'Matrix' in t['path'], 'position'); s.ndata = one(s.nf, isp, 'data'); s.nlabel = one(s.nf, iss, 'label')
        s.edata = one(s.ef, isp, 'data'); s.elabel = one(s.ef, iss, 'label')
        ends = [n for n, t, _ in s.ef if p.ty(t).get('name') == 'usize']
        if len(ends) != 2: raise Skip('the endpoints of Edge are not identifiable')
        e = sym('e'); s.src, s.dst = ends
        r = cx.summ(s.em('get_node_indices'), ['e'], [e]).ret
        if r is tup(proj(e, ends[1]), proj(e, ends[0])): s.src, s.dst = ends[1], ends[0]
        s.N, s.E = sym('N'), sym('E'); s.n, s.m = length(s.N), length(s.E)
        TM.REL[(s.E, s.src)] = s.N; TM.REL[(s.E, s.dst)] = s.N
        for q in (s.src, s.dst): pass
        s.g = s.graph(s.N, s.E)
        if len(s.nf) != 3 or len(s.ef) != 4 or len(s.gf) != 2: cx.notes.append('the graph types have additional fields')
    def gm(s, n): return s.cx.method('PlanarGraph', n)
    def nm(s, n): return s.cx.method('Node', n)
    def em(s, n): return s.cx.method('Edge', n)
    def graph(s, N, E): return struct(s.gp, [f for f, _, _ in s.gf], [N if f == s.nodes else E if f == s.edges else sym('g.' + f) for f, _, _ in s.gf])
    def node(s, pos, data, label):
        m = {s.pos: pos, s.ndata: data, s.nlabel: label}
        return struct(s.np, [f for f, _, _ in s.nf], [m.get(f, sym('node.' + f)) for f, _, _ in s.nf])
    def edge(s, a, b, data, label):
        m = {s.src: a, s.dst: b, s.edata: data, s.elabel: label}
        return struct(s.ep, [f for f, _, _ in s.ef], [m.get(f, sym('edge.' + f)) for f, _, _ in s.ef])
    def U(s, E, k): return nat_(proj(at(E, k), s.src))
    def V(s, E, k): return nat_(proj(at(E, k), s.dst))
    def P(s, N, i): return proj(at(N, i), s.pos)
    def inc(s, E, k, x): return b_or(ieq(s.U(E, k), x), ieq(s.V(E, k), x))
    def deg(s, x):
        j = ix(s.m); return sum_(s.m, j, ite(s.inc(s.E, j, x), ONE, ZERO))
    def joined(s, a, b):
        k = ix(s.m); u, v = s.U(s.E, k), s.V(s.E, k)
        return exists(s.m, k, b_or(b_and(ieq(a, u), ieq(b, v)), b_and(ieq(b, u), ieq(a, v))))
    # ------------------------------------------------- concrete values
    def cnode(s, pos, data, label=''): return Rec(s.np, [f for f, _, _ in s.nf], [{s.pos: Rec('Vec2', ('x', 'y'), pos), s.ndata: data, s.nlabel: label}.get(f, F(0)) for f, _, _ in s.nf])
    def cedge(s, a, b, data, label=''): return Rec(s.ep, [f for f, _, _ in s.ef], [{s.src: F(a), s.dst: F(b), s.edata: data, s.elabel: label}.get(f, F(0)) for f, _, _ in s.ef])
def nat_(t):
    for l in leaves(t): nat(l)
    return t
def ix(n):
    k = fresh('nat'); TM.BOUND[k] = n; return k

# ------------------------------------------------------------------ reference operations on small graphs (structure generator)
class RG:
    """the operations as documented, on concrete graphs: produces the reachable structures used for separation"""
    def __init__(s, eps): s.nodes = []; s.edges = []; s.eps = eps; s.k = 0
    def tok(s): s.k += 1; return 'd%d' % s.k
    def d(s, p, q): return fs((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2)
    def closest(s, p):
        b = None
        for i, (q, _) in enumerate(s.nodes):
            x = s.d(p, q)
            if b is None or x < b[1]: b = (i, x)
        return b
    def add_node(s, p, data=None):
        b = s.closest(p)
        if b and b[1] < s.eps: return b[0]
        s.nodes.append((p, data or s.tok())); s.split(len(s.nodes) - 1)
        return len(s.nodes) - 1
    def split(s, i):
        p = s.nodes[i][0]; more = []
        for e in s.edges:
            a, b = s.nodes[e[0]][0], s.nodes[e[1]][0]
            x, y = s.d(a, p), s.d(p, b)
            if abs(x + y - s.d(a, b)) < s.eps and x > s.eps and y > s.eps:
                more.append([e[1], i, e[2]]); e[1] = i
        s.edges += more
    def joined(s, a, b): return any({e[0], e[1]} == {a, b} for e in s.edges)
    def add_edge(s, a, b):
        if s.joined(a, b) or max(a, b) >= len(s.nodes): return
        A, B = s.nodes[a][0], s.nodes[b][0]
        pts = []
        for e in s.edges:
            q = meet(s.nodes[e[0]][0], s.nodes[e[1]][0], A, B)
            if q and all(s.d(q, r) > s.eps for r in pts): pts.append(q)
        s.edges.append([a, b, s.tok()])
        for q in pts:
            c = s.closest(q)
            if c[1] < s.eps: s.split(c[0])
            else: s.add_node(q, 'default')
    def remove_node(s, i):
        mark = {i}
        for e in s.edges:
            if i in e[:2]:
                o = e[1] if e[0] == i else e[0]
                if o != i and sum(o in f[:2] for f in s.edges) == 1: mark.add(o)
        s.edges = [e for e in s.edges if i not in e[:2]]
        keep = [k for k in range(len(s.nodes)) if k not in mark]; new = {k: q for q, k in enumerate(keep)}
        s.nodes = [s.nodes[k] for k in keep]
        s.edges = [[new[e[0]], new[e[1]], e[2]] for e in s.edges]
def fs(x):
    from eval import fsqrt
    return fsqrt(F(x))
def meet(a, b, c, d):
    u = (b[0] - a[0], b[1] - a[1]); v = (d[0] - c[0], d[1] - c[1])
    den = u[0] * v[1] - u[1] * v[0]
    if den == 0: return None
    w = (c[0] - a[0], c[1] - a[1])
    t = (w[0] * v[1] - w[1] * v[0]) / den; r = (w[0] * u[1] - w[1] * u[0]) / den
    if 0 <= t <= 1 and 0 <= r <= 1: return (a[0] + t * u[0], a[1] + t * u[1])
def shape(rng, h):
    """structures that random histories rarely reach: stars, edges along one line, loops everywhere, a second far component"""
    g = RG(GEPS[0]); kind = rng.choice(('star', 'star', 'nested', 'loops', 'single', 'pad'))
    big = [x for x in (h.ints if h else ()) if 2 < x <= 40]
    k = rng.choice(big) + rng.choice((0, 1)) if big and rng.random() < 0.5 else rng.randint(2, 6)
    if kind == 'star':
        k = min(k, 9); n = k + 1 + rng.randint(0, 3); ids = list(range(n))
        if rng.random() < 0.6: rng.shuffle(ids)
        if rng.random() < 0.3: ids = ids[::-1]
        ring = ((3, 0), (3, 2), (2, 3), (0, 3), (-2, 3), (-3, 2), (-3, 0), (-3, -2), (-2, -3), (0, -3), (2, -3), (3, -2), (7, 7))
        at_ = {ids[0]: (F(0), F(0))}
        for j in range(1, n): at_[ids[j]] = (F(ring[j - 1][0]), F(ring[j - 1][1]))
        g.nodes = [(at_[i], g.tok()) for i in range(n)]
        g.edges = [[ids[0], ids[j], g.tok()] if rng.random() < 0.5 else [ids[j], ids[0], g.tok()] for j in range(1, k + 1)]
        for j in range(1, n - 1):        # some leaves have other edges
            if rng.random() < 0.25: g.edges.insert(rng.randint(0, len(g.edges)), [ids[j], ids[j + 1], g.tok()])
        if rng.random() < 0.2: g.edges.insert(rng.randint(0, len(g.edges)), [ids[0], ids[0], g.tok()])
    elif kind == 'nested':               # overlapping edges on one line are not divided by one another
        k = min(k, 9); ids = list(range(2 * k)); rng.shuffle(ids); at_ = {}
        for j in range(k): at_[ids[2 * j]] = (F(-j - 1), F(0)); at_[ids[2 * j + 1]] = (F(j + 1 + rng.randint(0, 1)), F(0))
        seen = set()
        if len(set(at_.values())) < 2 * k:
            for j in range(k): at_[ids[2 * j + 1]] = (F(j + 1), F(0))
        g.nodes = [(at_[i], g.tok()) for i in range(2 * k)]
        g.edges = [[ids[2 * j], ids[2 * j + 1], g.tok()] for j in range(k)]; rng.shuffle(g.edges)
    elif kind == 'loops':
        n = min(k, 9)
        for j in range(n): g.nodes.append(((F(j), F(j * j)), g.tok()))      # in convex position
        es = [[j, j] for j in range(n) if rng.random() < 0.8] + [[j, j + 1] for j in range(n - 1) if rng.random() < 0.8]
        if rng.random() < 0.5: es += [[0, j] for j in range(2, n)]
        rng.shuffle(es)
        g.edges = [(e if rng.random() < 0.6 else e[::-1]) + [g.tok()] for e in es]
    elif kind == 'single':
        g.nodes = [((F(rng.randint(0, 3)), F(0)), g.tok())]
        if rng.random() < 0.7: g.edges = [[0, 0, g.tok()]]
    else:                                # a small drawing and many edges elsewhere
        while True:
            g = gen(A_[0], rng)
            if g is not None: break
        n = len(g.nodes); new = []
        for j in range(k):
            g.nodes += [((F(1000 + 4 * j), F(1000)), g.tok()), ((F(1002 + 4 * j), F(1001)), g.tok())]; new.append([n + 2 * j, n + 2 * j + 1, g.tok()])
        g.edges = g.edges + new if rng.random() < 0.7 else new + g.edges
    return g
A_ = [None]
def gen(A, rng, simple=False, big=None, h=None, shapes=False):
    A_[0] = A
    if shapes and rng.random() < 0.3: return shape(rng, h)
    g = RG(GEPS[0])
    R = rng.choice((2, 3, 4, 6, 10))
    steps = rng.choice((0, 1, 2, 4, 6, 8, 10, 12))
    off = rng.choice((F(0), F(0), F(0), F(1, 200), F(1, 40)))
    for _ in range(steps):
        r = rng.random()
        n = len(g.nodes)
        if n < 2 or r < 0.45:
            p = (F(rng.randint(0, R)), F(rng.randint(0, R)))
            if n and rng.random() < 0.15: q = rng.choice(g.nodes)[0]; p = (q[0] + rng.choice((off, F(1, 100), F(1, 64), F(1, 50))), q[1])
            g.add_node(p)
        elif r < 0.93:
            a, b = rng.randrange(n), rng.randrange(n)
            if a == b and rng.random() < 0.6: continue
            g.add_edge(a, b)
        else: g.remove_node(rng.randrange(n))
    if len(g.nodes) > 14 or len(g.edges) > 18: return None
    return g
def values(A, g):
    return {'N': tuple(A.cnode(p, d) for p, d in g.nodes), 'E': tuple(A.cedge(a, b, d) for a, b, d in g.edges)}
def d_graph(A, *args):
    def f(rng, h, i):
        g = None
        while g is None: g = gen(A, rng, h=h, shapes=True)
        val = values(A, g); n, m = len(g.nodes), len(g.edges)
        for a in args:
            if a in ('i', 'a', 'b'): val[a] = h.index(rng, n)
            elif a == 'e': val[a] = h.index(rng, m)
            elif a == 'd': val[a] = 'new'
            elif a == 'p':
                p = (F(rng.randint(0, 6)), F(rng.randint(0, 6)))
                r = rng.random()
                if r < 0.3 and m:
                    u, v, _ = rng.choice(g.edges); s, t = g.nodes[u][0], g.nodes[v][0]; k = rng.choice((F(1, 2), F(1, 4), F(1, 3), F(3, 4)))
                    p = (s[0] + k * (t[0] - s[0]), s[1] + k * (t[1] - s[1]) + rng.choice((0, 0, 0, F(1, 8))))
                elif r < 0.5 and n:
                    q = rng.choice(g.nodes)[0]; p = (q[0] + rng.choice((0, F(1, 100), F(1, 64), F(1, 63), F(1, 70))), q[1] + rng.choice((0, 0, F(1, 100))))
                elif r < 0.55: p = (h.number(rng), h.number(rng))
                val['px'], val['py'] = p
        if 'a' in args and 'b' in args and m and rng.random() < 0.4:
            e = rng.choice(g.edges[-3:] if rng.random() < 0.3 else g.edges); q = [F(e[0]), F(e[1])]
            if rng.random() < 0.5: q.reverse()
            val['a'], val['b'] = q
        return val
    return f

# ------------------------------------------------------------------ C20
def c20(cx):
    A = G(cx); i, a, b = nat_sym('i'), nat_sym('a'), nat_sym('b')
    lookup = lambda S, n, k: ite(ilt(k, n), some(at(S, k)), NONE)
    gr = d_graph(A, 'i', 'a', 'b', 'e')
    def ob(nm, args, spec, rule, dom=gr):
        cx.eq('PlanarGraph::' + nm, lambda: A.gm(nm), lambda f: cx.summ(f, ['g', 'x', 'y'][:1 + len(args)], [A.g] + args).ret, spec, rule, dom, eps=GEPS)
        cx.panics('PlanarGraph::%s never panics' % nm, lambda: A.gm(nm), lambda f: cx.summ(f, ['g', 'x', 'y'][:1 + len(args)], [A.g] + args), FALSE, 'no panic site is reachable', dom)
    e = nat_sym('e')
    ob('node_count', [], A.n, 'number of stored nodes')
    ob('edge_count', [], A.m, 'number of stored edges')
    ob('get_nodes', [], A.N, 'the stored nodes')
    ob('get_edges', [], A.E, 'the stored edges')
    ob('get_vertex', [i], lookup(A.N, A.n, i), 'the stored node iff index < count')
    ob('get_edge', [e], lookup(A.E, A.m, e), 'the stored edge iff index < count')
    ob('has_node_at_index', [i], ilt(i, A.n), 'index < count')
    ob('has_edge_at_index', [e], ilt(e, A.m), 'index < count')
    ob('has_edge_between_nodes', [a, b], A.joined(a, b), 'some stored edge has these endpoints, in either order')
    ob('number_of_edges_incident_to', [i], ite(ilt(i, A.n), some(A.deg(i)), NONE), 'number of stored edges with this endpoint')
    # elements
    N1, E1 = A.node(pt('p'), sym('nd'), sym('nl')), A.edge(nat_sym('s'), nat_sym('t'), sym('ed'), sym('el'))
    def del_(rng, h, k):
        return {'px': h.number(rng), 'py': h.number(rng), 'nd': 'nd', 'nl': 'nl', 's': F(rng.randint(0, 4)), 't': F(rng.randint(0, 4)), 'ed': 'ed', 'el': 'el', 'i': F(rng.randint(0, 4))}
    def el(nm, m, args, spec, rule): cx.eq(nm, m, lambda f: cx.summ(f, ['x', 'y', 'z', 'w'][:len(args)], args).ret, spec, rule, del_)
    el('Node::new', lambda: A.nm('new'), [pt('p'), sym('nd'), sym('nl')], N1, 'stores its arguments')
    el('Node::get_position', lambda: A.nm('get_position'), [N1], pt('p'), 'the stored position')
    el('Edge::new', lambda: A.em('new'), [nat_sym('s'), nat_sym('t'), sym('ed'), sym('el')], E1, 'stores its arguments')
    el('Edge::get_node_indices', lambda: A.em('get_node_indices'), [E1], tup(nat_sym('s'), nat_sym('t')), 'the stored endpoints')
    el('Edge::get_data', lambda: A.em('get_data'), [E1], sym('ed'), 'the stored data')
    el('Edge::get_label', lambda: A.em('get_label'), [E1], sym('el'), 'the stored label')
    el('Edge::includes', lambda: A.em('includes'), [E1, nat_sym('i')], b_or(ieq(nat_sym('s'), nat_sym('i')), ieq(nat_sym('t'), nat_sym('i'))), 'the index is one of the endpoints')
    el('Edge::clone', lambda: cx.method('Edge', 'clone', 'Clone'), [E1], E1, 'an equal edge')
    el('Node::clone', lambda: cx.method('Node', 'clone', 'Clone'), [N1], N1, 'an equal node')
    cx.eq('PlanarGraph::clone', lambda: cx.method('PlanarGraph', 'clone', 'Clone'), lambda f: cx.summ(f, ['g'], [A.g]).ret, A.g, 'an equal graph', gr)
    cx.eq('PlanarGraph::new', lambda: A.gm('new'), lambda f: cx.summ(f, [], []).ret, A.graph(NIL, NIL), 'no nodes, no edges', gr)

# ------------------------------------------------------------------ dividing edges
def on_edge(A, N, E, k, p):
    a, b = A.P(N, A.U(E, k)), A.P(N, A.V(E, k))
    return b_and(lt(absv(sub(add(dist(a, p), dist(p, b)), dist(a, b))), EPS), gt(dist(a, p), EPS), gt(dist(p, b), EPS))
def divide(A, N, E, at_):
    """edges and changed indices after dividing every edge of E that passes through node at_ of N"""
    m = length(E); p = A.P(N, at_)
    def test(k): return on_edge(A, N, E, k, p)
    k = ix(m); c = test(k)
    slots = fm(m, k, lit([A.edge(A.U(E, k), ite(c, at_, A.V(E, k)), proj(at(E, k), A.edata), ite(c, string(''), proj(at(E, k), A.elabel)))]))
    k = ix(m); c = test(k)
    more = fm(m, k, ite(c, lit([A.edge(A.V(E, k), at_, proj(at(E, k), A.edata), string(''))]), NIL))
    k = ix(m); c = test(k)
    hit = fm(m, k, ite(c, lit([k]), NIL))
    j = ix(length(more))
    return cat([slots, more]), cat([hit, fm(length(more), j, lit([add(m, j)]))])
def nearest(A, N, p):
    n = length(N); i, j = ix(n), ix(n)
    dk = lambda k: dist(p, A.P(N, k))
    mn = minv(n, i, dk(i))
    return first(n, j, le(dk(j), mn)), mn
def add_node_spec(A, N, E, p, data):
    idx, mn = nearest(A, N, p); n = length(N)
    hit = b_and(ilt(ZERO, n), lt(mn, EPS))
    N2 = cat([N, lit([A.node(p, data, string(''))])])
    E2, ch = divide(A, N2, E, n)
    return hit, idx, N2, E2, ch
def und(A, e): return (frozenset((e.get(A.src), e.get(A.dst))), e.get(A.edata))
def bag(xs): return tuple(sorted(xs, key=repr))
def pt(n): return vec2(sym(n + 'x'), sym(n + 'y'))
def nat_sym(n): return nat(sym(n))

def node_setup(cx):
    A = G(cx); p, d = pt('p'), sym('d')
    hit, idx, N2, E2, ch = add_node_spec(A, A.N, A.E, p, d)
    spec = tup(ite(hit, tup(idx, NIL), tup(A.n, ch)), ite(hit, A.g, A.graph(N2, E2)))
    def code(f):
        s = cx.summ(f, ['g', 'p', 'd'], [A.g, p, d]); return tup(s.ret, s.muts['g'])
    return A, code, spec
def nodes_alike(A, xs, ys):
    """same positions and data, slot by slot (labels of new nodes are not prescribed)"""
    if len(xs) != len(ys): return 'the graph has %d nodes, the property requires %d' % (len(xs), len(ys))
    for q, (x, y) in enumerate(zip(xs, ys)):
        if not same(x.get(A.pos), y.get(A.pos)) or not same(x.get(A.ndata), y.get(A.ndata)): return 'node %d is %s, the property requires %s' % (q, x, y)
def edges_alike(A, before, xs, ys):
    if len(xs) != len(ys): return 'the graph has %d edges, the property requires %d' % (len(xs), len(ys))
    m = len(before)
    for q in range(min(m, len(ys))):
        if und(A, xs[q]) != und(A, ys[q]): return 'edge slot %d holds %s, the property requires %s' % (q, xs[q], ys[q])
        if same(ys[q], before[q]) and not same(xs[q], before[q]): return 'edge %d is not divided and becomes %s' % (q, xs[q])
    if bag(und(A, e) for e in xs[m:]) != bag(und(A, e) for e in ys[m:]): return 'the appended edges are %s, the property requires %s' % (rp(xs[m:]), rp(ys[m:]))
def c21(cx):
    A, code, spec = node_setup(cx)
    def judge(ev, val, x, y):
        (rx, gx), (ry, gy) = x.vals, y.vals
        if not same(rx.vals[0], ry.vals[0]): return 'the returned node index is %s, the property requires %s' % (rp(rx.vals[0]), rp(ry.vals[0]))
        r = nodes_alike(A, gx.get(A.nodes), gy.get(A.nodes))
        if r: return r
        if set(rx.vals[1]) != set(ry.vals[1]): return 'the returned edges are %s, the property requires %s' % (rp(rx.vals[1]), rp(ry.vals[1]))
        if len(gy.get(A.nodes)) == len(val['N']) and not same(gx, gy): return 'the graph changes although a node is reused: %s' % gx
    cx.eq('PlanarGraph::add_node', lambda: A.gm('add_node'), code, spec, 'reuse iff the nearest node is nearer than epsilon; otherwise append exactly one node', d_graph(A, 'p', 'd'), judge=judge, eps=GEPS)

# ------------------------------------------------------------------ C22
def seg_point(a, b, c, d):
    den, t, s = seg_params(a, b, c, d)
    ok_ = b_and(b_not(eq(den, ZERO)), ge(t, ZERO), le(t, ONE), ge(s, ZERO), le(s, ONE))
    u = vsub(b, a)
    return ok_, vec2(add(X(a), mul(X(u), t)), add(Y(a), mul(Y(u), t)))
def uniq(v):
    n = length(v); s, k = fresh('any'), fresh('nat'); m = ix(length(s))
    cl = exists(length(s), m, le(dist(at(v, k), at(s, m)), EPS))
    return rec_value([NIL, ZERO], [s, k], [ite(cl, s, cat([s, lit([at(v, k)])])), add(k, ONE)], ilt(k, n), 0)
def add_edge_spec(A, a, b, d):
    m = A.m; E0 = cat([A.E, lit([A.edge(a, b, d, string(''))])])
    k = ix(m); ok_, q = seg_point(A.P(A.N, A.U(A.E, k)), A.P(A.N, A.V(A.E, k)), A.P(A.N, a), A.P(A.N, b))
    W = uniq(fm(m, k, ite(ok_, lit([q]), NIL)))
    k, N, E, cn, ce = fresh('nat'), fresh('any'), fresh('any'), fresh('any'), fresh('any')
    TM.REL[(E, A.src)] = N; TM.REL[(E, A.dst)] = N; TM.BOUND[k] = length(W)
    p = at(W, k)
    hit, idx, N2, E2, ch = add_node_spec(A, N, E, p, mk('app', 'default', string('T')))
    E3, ch3 = divide(A, N, E, idx)
    nx = [ite(hit, N, N2), ite(hit, E3, E2), ite(hit, cn, cat([cn, lit([length(N)])])), ite(hit, cat([ce, ch3]), cat([ce, ch]))]
    del TM.BOUND[k]
    return rec_values([ZERO, A.N, E0, NIL, NIL], [k, N, E, cn, ce], [add(k, ONE)] + nx, ilt(k, length(W)), range(1, 5))
def edge_setup(cx):
    """add_edge for arbitrary arguments, and for two existing nodes"""
    A = G(cx); d = sym('d')
    def code(a, b):
        def f(fn):
            s = cx.summ(fn, ['g', 'a', 'b', 'd'], [A.g, a, b, d]); return tup(s.ret, s.muts['g'])
        return f
    a, b = nat_sym('aI'), nat_sym('bI')
    bound(A, a, b)
    return A, code, nat_sym('a'), nat_sym('b'), a, b, d
def bound(A, *vs):
    """from here on these symbols denote existing nodes"""
    TM.UPPER.append(lambda v: sub(A.n, ONE) if v in vs else None)
def existing(dom, *names):
    def f(rng, h, i):
        val = dom(rng, h, i)
        if val is None or not val['N']: return None
        for q in names: val[q] = F(rng.randrange(len(val['N'])))
        return val
    return f
def pos(A, x): return (x.get(A.pos).get('x'), x.get(A.pos).get('y'))
def apart(p, q): return fs((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2)
def ambiguous(A, ev, val, y):
    """two relevant points that are neither clearly the same nor clearly different"""
    ps = [pos(A, q) for q in y.get(A.nodes)]
    if 'aI' in val and val['N']:
        a, b = pos(A, val['N'][int(val['aI'])]), pos(A, val['N'][int(val['bI'])])
        for e in val['E']:
            q = meet(pos(A, val['N'][int(e.get(A.src))]), pos(A, val['N'][int(e.get(A.dst))]), a, b)
            if q: ps.append(q)
    for i, p in enumerate(ps):
        for q in ps[:i]:
            if p != q and apart(p, q) < ev.eps * F(16, 10) and not same(p, q): return True
    return False
def renaming(A, xs, ys):
    """index in the second graph of every node of the first, by position"""
    if len(xs) != len(ys): return None
    m = {}
    for i, x in enumerate(xs):
        c = [j for j, y in enumerate(ys) if same(x.get(A.pos), y.get(A.pos))]
        if len(c) != 1 or c[0] in m.values(): return None
        m[F(i)] = F(c[0])
    return m
def pairs(A, es, m=None):
    return [(frozenset(m[q] if m else q for q in (e.get(A.src), e.get(A.dst))), e.get(A.edata)) for e in es]
def twice(prs):
    seen = set(); out = set()
    for p, _ in prs:
        if p in seen: out.add(p)
        seen.add(p)
    return out
def interior(A, ev, nodes, e, n0):
    """nodes below n0 lying inside edge e (pair of indices) without dividing it"""
    es = [int(q) for q in e]
    if len(es) < 2: return []
    a, b = pos(A, nodes[es[0]]), pos(A, nodes[es[1]]); out = []
    for q in range(n0):
        p = pos(A, nodes[q]); u, v = apart(a, p), apart(p, b)
        if q not in es and abs(u + v - apart(a, b)) < ev.eps and u > ev.eps and v > ev.eps: out.append((u, q))
    return [q for _, q in sorted(out)]
def complete(A, ev, y, n0, d):
    """the reference result with the added edge further divided at every old node in its interior"""
    nodes = y.get(A.nodes); out = set()
    for p, dd in pairs(A, y.get(A.edges)):
        qs = interior(A, ev, nodes, p, n0) if dd == d else []
        if not qs: out.add((p, dd)); continue
        a, b = [int(z) for z in p]
        ch = [a] + qs + [b]
        if apart(pos(A, nodes[a]), pos(A, nodes[qs[0]])) > apart(pos(A, nodes[b]), pos(A, nodes[qs[0]])) and len(qs) > 1: pass
        for u, v in zip(ch, ch[1:]): out.add((frozenset((F(u), F(v))), dd))
    return out
def split_alike(A, ev, val, gx, gy):
    """same graph up to the numbering of created nodes, the orientation of edges and the order of appended edges"""
    n, m = len(val['N']), len(val['E'])
    xs, ys = gx.get(A.nodes), gy.get(A.nodes)
    r = nodes_alike(A, xs[:n], val['N'])
    if r: return r, None
    mp = renaming(A, xs, ys)
    if mp is None: return 'the nodes are at %s, the property requires %s' % (rp(tuple(q.get(A.pos) for q in xs)), rp(tuple(q.get(A.pos) for q in ys))), None
    for q in range(n, len(xs)):
        v, w = xs[q].get(A.ndata), ys[int(mp[F(q)])].get(A.ndata)
        if not same(v, w): return 'the node created at %s carries %s, the property requires %s' % (rp(xs[q].get(A.pos)), rp(v), rp(w)), mp
    px, py = pairs(A, gx.get(A.edges), mp), pairs(A, gy.get(A.edges))
    if sorted(px, key=repr) == sorted(py, key=repr): return None, mp
    d = val['d']; sx = set(p for p, _ in px); data = {}
    for p, dd in py: data.setdefault(p, set()).add(dd)
    z = complete(A, ev, gy, n, d)
    for p, dd in z: data.setdefault(p, set()).add(dd)
    if all(dd in data.get(p, ()) for p, dd in px) and sx in (set(p for p, _ in py), set(p for p, _ in z)): return None, mp
    return 'the edges are %s, the property requires %s' % (rp(tuple(gx.get(A.edges))), rp(tuple(gy.get(A.edges)))), mp
def c22(cx):
    A, code, a, b, aI, bI, d = edge_setup(cx)
    fn = lambda: A.gm('add_edge')
    def refusal(c): return lambda f: refused(c(f))
    def refused(t):
        es = [l for l in leaves(proj(t, '0')) if l.op == 'enum' and l.a[1] == 'Err']
        return tup(es[0] if es else err(sym('no such vertex')), A.g)
    def judge0(ev, val, x, y):
        r, g = x.vals
        if r.tag != 'Err': return 'an edge with an endpoint that does not exist is accepted: %s' % rp(r)
        if not (isinstance(r.vals[0], Var) and r.vals[0].tag == 'NoSuchVertex'): return 'the error is %s, not NoSuchVertex' % rp(r.vals[0])
        if not same(g, y.vals[1]): return 'the refused call changes the graph: %s' % rp(g)
    def ident0(c):
        def f(fn_):
            r = refused(c(fn_)); e = r.a[2][0]
            return [r] if e.op == 'enum' and e.a[3] and e.a[3][0].op == 'enum' and e.a[3][0].a[1] == 'NoSuchVertex' else []
        return f
    judge0.identity = False
    past = nat_sym('past')      # how far beyond the last node the index lies
    for nm, x, y in (('source', add(A.n, past), b), ('target', a, add(A.n, past))):
        dom0 = d_graph(A, 'a', 'b', 'd')
        def dom1(rng, h, i, dom0=dom0):
            val = dom0(rng, h, i)
            if val is not None: val['past'] = F(h.index(rng, 3))
            return val
        c = code(x, y)
        cx.eq('add_edge refuses a missing %s' % nm, fn, c, refusal(c), 'Err(NoSuchVertex) and the graph as it was', dom1, judge=judge0, eps=GEPS, alts=ident0(c))
    dup = A.joined(aI, bI)
    ed = existing(d_graph(A, 'd'), 'aI', 'bI')
    def joined_already(rng, h, i):
        val = ed(rng, h, i)
        if val and val['E'] and rng.random() < 0.9:
            e = rng.choice(val['E']); q = [e.get(A.src), e.get(A.dst)]
            if rng.random() < 0.5: q.reverse()
            val['aI'], val['bI'] = q
        return val
    cx.eq('add_edge between joined nodes changes nothing', fn, code(aI, bI), tup(ok(tup(NIL, NIL)), A.g), 'Ok with nothing changed when the nodes are joined, in either order', joined_already, pre=dup, eps=GEPS)
    N2, E2, cn, ce = add_edge_spec(A, aI, bI, d)
    only = lit([sub(length(E2), ONE)]); none = ieq(length(ce), ZERO)      # an undivided edge is reported too
    spec, spec1 = [tup(ok(tup(cn, ite(none, x, ce))), A.graph(N2, E2)) for x in (only, cat([ce, only]))]
    both = lambda x: ite(dup, tup(ok(tup(NIL, NIL)), A.g), x)
    def judge(ev, val, x, y):
        (rx, gx), (ry, gy) = x.vals, y.vals
        if ambiguous(A, ev, val, gy): raise Skip('points too close to each other')
        if rx.tag != 'Ok': return 'the edge is refused: %s' % rp(rx)
        r, mp = split_alike(A, ev, val, gx, gy)
        if r: return r
        n, m = len(val['N']), len(val['E'])
        nodes, edges = rx.vals[0].vals
        if sorted(nodes) != [F(q) for q in range(n, len(gx.get(A.nodes)))]: return 'the returned nodes are %s, the created ones are %d..%d' % (rp(nodes), n, len(gx.get(A.nodes)) - 1)
        xe = gx.get(A.edges); need = set()
        for q in range(m):
            if q >= len(xe) or und(A, xe[q]) != und(A, val['E'][q]): need.add(F(q))
        need |= set(F(q) for q in range(m + 1, len(xe)))
        if m < len(xe) and pairs(A, [xe[m]])[0][0] != frozenset((val['aI'], val['bI'])): need.add(F(m))
        if not need: need.add(F(m))
        if not need <= set(edges): return 'the returned edges %s do not include %s' % (rp(edges), rp(tuple(sorted(need - set(edges)))))
        if any(q >= len(xe) for q in edges): return 'the returned edges %s do not all exist' % rp(edges)
    cx.eq('add_edge inserts and divides', fn, code(aI, bI), spec, 'the new edge is appended; every meeting point becomes a node at which the edges through it are divided; created nodes and changed edges are reported', ed, pre=b_not(dup), judge=judge, eps=GEPS, alts=[both(spec1), both(spec)])
    def at_(t):
        def f(rng, h, i):
            if i == 0:
                A_ = A; N = tuple(A.cnode((F(x), F(y)), 'd%d' % q) for q, (x, y) in enumerate(t[0]))
                return {'N': N, 'E': tuple(A.cedge(u, v, 'e%d' % q) for q, (u, v) in enumerate(t[1])), 'aI': F(t[2][0]), 'bI': F(t[2][1]), 'd': 'new'}
            return ed(rng, h, i)
        return f
    def j_dup(ev, val, x, y):
        gx, gy = x.vals[1], y.vals[1]
        if twice(pairs(A, val['E'])): raise Skip('joined twice before')
        if ambiguous(A, ev, val, gy): raise Skip('points too close to each other')
        t = twice(pairs(A, gx.get(A.edges)))
        if not t: return
        mp = renaming(A, gx.get(A.nodes), gy.get(A.nodes))
        ty = twice(pairs(A, gy.get(A.edges)))
        key = 'divided-edge-coincides' if mp and all(frozenset(mp[q] for q in p) in ty for p in t) else 'joined-twice'
        return key, 'the nodes %s are joined twice afterwards: %s' % (', '.join('/'.join(rp(q) for q in sorted(p)) for p in t), rp(gx.get(A.edges)))
    j_dup.identity = False
    def j_int(ev, val, x, y):
        gx, gy = x.vals[1], y.vals[1]; n = len(val['N'])
        if ambiguous(A, ev, val, gy): raise Skip('points too close to each other')
        def bad(g):
            out = set()
            for p, dd in pairs(A, g.get(A.edges)):
                if dd == val['d']: out |= set(interior(A, ev, g.get(A.nodes), p, n))
            return out
        b_ = bad(gx)
        if not b_: return
        key = 'uncrossed-node-not-divided' if b_ <= bad(gy) else 'node-not-divided'
        return key, 'the new edge passes through existing node(s) %s without being divided there: %s' % (sorted(b_), rp(gx.get(A.edges)))
    j_int.identity = False
    d1 = at_((((0, 0), (10, 0), (5, 5), (5, 0)), ((0, 3), (3, 2)), (0, 1))); d2 = at_((((0, 0), (10, 0), (5, 0)), (), (0, 1)))
    cx.eq('add_edge joins no pair twice', fn, code(aI, bI), spec, 'no two stored edges have the same endpoints afterwards if none had before', d1, pre=b_not(dup), judge=j_dup, eps=GEPS)
    cx.eq('add_edge divides the new edge at nodes in its interior', fn, code(aI, bI), spec, 'no old node lies inside a part of the new edge', d2, pre=b_not(dup), judge=j_int, eps=GEPS)

# ------------------------------------------------------------------ C23
def c23(cx):
    A, ncode, nspec = node_setup(cx)
    ge = lambda t: proj(proj(t, '1'), A.edges)
    def judge(ev, val, x, y):
        return edges_alike(A, val['E'], x, y)
    cx.eq('add_node divides the edges through the node', lambda: A.gm('add_node'), lambda f: ge(ncode(f)), ge(nspec), 'each edge through the new node is replaced in its slot by the part from its first endpoint and the rest is appended, both with its data; other edges are untouched', d_graph(A, 'p', 'd'), judge=judge, eps=GEPS)
    A, code, _, _, aI, bI, d = edge_setup(cx)
    dup = A.joined(aI, bI)
    N2, E2, cn, ce = add_edge_spec(A, aI, bI, d)
    spec = A.graph(N2, E2)
    def judge2(ev, val, gx, gy):
        if ambiguous(A, ev, val, gy): raise Skip('points too close to each other')
        if twice(pairs(A, gy.get(A.edges))): raise Skip('joined twice')
        r, mp = split_alike(A, ev, val, gx, gy)
        if mp is None: return          # the wrong nodes: that is C22
        m = len(val['E']); xe, ye = gx.get(A.edges), gy.get(A.edges)
        zs = complete(A, ev, gy, len(val['N']), d)
        for q in range(m):
            if q >= len(xe): return 'edge slot %d is gone' % q
            if pairs(A, [xe[q]], mp) != pairs(A, [ye[q]]): return 'edge slot %d holds %s, the property requires %s' % (q, rp(xe[q]), rp(ye[q]))
            if same(ye[q], val['E'][q]) and not same(xe[q], ye[q]): return 'edge %d is not divided and becomes %s' % (q, rp(xe[q]))
        old = lambda es, mm: sorted([p for p in pairs(A, es, mm) if p[1] != val['d']], key=repr)
        if old(xe[m:], mp) != old(ye[m:], None): return 'the appended parts of divided edges are %s, the property requires %s' % (rp(xe[m:]), rp(ye[m:]))
        new = set(p for p in pairs(A, xe[m:], mp) if p[1] == val['d'])
        if new not in (set(p for p in pairs(A, ye[m:]) if p[1] == val['d']), set(p for p in zs if p[1] == val['d'])):
            return 'the parts of the new edge are %s, the property requires %s' % (rp(xe[m:]), rp(ye[m:]))
    cx.eq('add_edge divides the edges it meets', lambda: A.gm('add_edge'), lambda f: proj(code(aI, bI)(f), '1'), spec, 'as for add_node, at every meeting point, the new edge included', existing(d_graph(A, 'd'), 'aI', 'bI'), pre=b_not(dup), judge=judge2, eps=GEPS, alts=[ite(dup, A.g, spec)])

# ------------------------------------------------------------------ C24, C25
def stray_list(A, N, E, i):
    """the neighbours of i without another edge, one entry per edge"""
    m = length(E); k = ix(m)
    u, v = A.U(E, k), A.V(E, k)
    w = ite(ieq(u, i), v, u)
    cond = b_and(A.inc(E, k, i), ine(w, i), ieq(A.deg(w), ONE))
    return fm(m, k, ite(cond, lit([w]), NIL))
def remove_spec(A, N, E, i):
    n, m = length(N), length(E)
    marked = cat([lit([i]), stray_list(A, N, E, i)]); c = length(marked)
    def is_marked(x):
        z = fresh('any'); return TM.over_seq('exists', marked, z, ieq(z, x))
    def new(x):
        z = fresh('any'); return ite(is_marked(x), x, sub(x, TM.over_seq('sum', marked, z, ite(ilt(z, x), ONE, ZERO))))
    q = ix(n); N2 = fm(n, q, ite(is_marked(q), NIL, lit([at(N, q)])))
    k = ix(m); E2 = fm(m, k, ite(A.inc(E, k, i), NIL, lit([A.edge(new(A.U(E, k)), new(A.V(E, k)), proj(at(E, k), A.edata), proj(at(E, k), A.elabel))])))
    j = ix(c); mn = minv(c, j, at(marked, j))
    k = ix(m); mk_ = fm(m, k, ite(A.inc(E, k, i), lit([k]), NIL)); cm = length(mk_)
    j = ix(cm); me = ite(ilt(ZERO, cm), minv(cm, j, at(mk_, j)), m)
    def span_(a, b):
        z = rcount(a, b); j = ix(z); return fm(z, j, lit([add(a, j)]))
    return tup(tup(span_(mn, n), span_(me, m)), A.graph(N2, E2))
def origin_nodes(A, val, i):
    """reference: which nodes and edges survive the removal of node i"""
    E = [(int(e.get(A.src)), int(e.get(A.dst))) for e in val['E']]
    mark = {i}
    for u, v in E:
        if i in (u, v):
            w = v if u == i else u
            if w != i and sum(w in f for f in E) == 1: mark.add(w)
    return [q for q in range(len(val['N'])) if q not in mark], [k for k, e in enumerate(E) if i not in e]
def covers(what, ret, orig, n):
    for q in range(max(n, len(orig))):
        if (q >= len(orig) or orig[q] != q) and F(q) not in ret: return 'the returned %s %s omit slot %d, which %s' % (what, rp(ret), q, 'no longer exists' if q >= len(orig) else 'now holds another %s' % what[:-1])
def no_double(dom, A):
    def f(rng, h, i):
        val = dom(rng, h, i)
        if val is None or twice(pairs(A, val['E'])): return None
        return val
    return f
def removed_alike(A, val, i, rx, gx):
    ns, es = origin_nodes(A, val, i)
    new = {F(o): F(q) for q, o in enumerate(ns)}
    r = nodes_alike(A, gx.get(A.nodes), tuple(val['N'][o] for o in ns))
    if r: return r
    want = tuple(Rec(A.ep, e.names, [{A.src: new[e.get(A.src)], A.dst: new[e.get(A.dst)]}.get(n_, e.get(n_)) for n_ in e.names]) for e in (val['E'][k] for k in es))
    if not same(gx.get(A.edges), want):
        return 'the remaining edges are %s, the property requires %s' % (rp(gx.get(A.edges)), rp(want))
    return covers('nodes', rx.vals[0], ns, len(val['N'])) or covers('edges', rx.vals[1], es, len(val['E']))
def c24(cx):
    A = G(cx); i = nat_sym('i')
    def code(f):
        s = cx.summ(f, ['g', 'i'], [A.g, i]); return tup(s.ret, s.muts['g'])
    nothing = tup(tup(NIL, NIL), A.g)
    gr = no_double(d_graph(A, 'i'), A)
    fn = lambda: A.gm('remove_node')
    there = ilt(i, A.n)
    cx.eq('remove_node of a missing node changes nothing', fn, code, nothing, 'graph unchanged, nothing reported', gr, pre=b_not(there), eps=GEPS)
    def judge(ev, val, x, y): return removed_alike(A, val, int(val['i']), x.vals[0], x.vals[1])
    cx.eq('remove_node', fn, code, remove_spec(A, A.N, A.E, i), 'the node, its edges and its neighbours without another edge go; the rest keeps order and content, endpoints renumbered; every slot with a different content is reported', gr, pre=there, judge=judge, eps=GEPS)
def c25(cx):
    A = G(cx); e = nat_sym('e'); m = A.m
    def code(f):
        s = cx.summ(f, ['g', 'e'], [A.g, e]); return tup(s.ret, s.muts['g'])
    gr = no_double(d_graph(A, 'e'), A)
    fn = lambda: A.gm('remove_edge'); there = ilt(e, m)
    cx.eq('remove_edge of a missing edge changes nothing', fn, code, tup(tup(NIL, NIL), A.g), 'graph unchanged, nothing reported', gr, pre=b_not(there), eps=GEPS)
    u, v = A.U(A.E, e), A.V(A.E, e)
    su, sv = ieq(A.deg(u), ONE), ieq(A.deg(v), ONE)
    cut = tup(tup(NIL, lit([e, sub(m, ONE)])), A.graph(A.N, swap_remove(A.E, e)))
    alone = tup(tup(NIL, lit([e])), A.graph(A.N, A.E))       # a single edge always leaves strays: not reachable
    spec = ite(su, remove_spec(A, A.N, A.E, u), ite(sv, remove_spec(A, A.N, A.E, v), cut))
    alt = ite(su, remove_spec(A, A.N, A.E, u), ite(sv, remove_spec(A, A.N, A.E, v), ite(ile(m, ONE), alone, cut)))
    def judge(ev, val, x, y):
        k = int(val['e']); E = [(int(q.get(A.src)), int(q.get(A.dst))) for q in val['E']]
        stray = [q for q in E[k] if sum(q in f for f in E) == 1]
        rx, gx = x.vals
        if stray: return removed_alike(A, val, stray[0], rx, gx)
        if not same(gx.get(A.nodes), val['N']): return 'the nodes change although no endpoint becomes stray: %s' % rp(gx.get(A.nodes))
        opts = []
        o = list(range(len(E))); o[k] = o[-1]; o.pop(); opts.append(o)
        if k == len(E) - 1: opts = [list(range(k))]
        for o in opts:
            if same(gx.get(A.edges), tuple(val['E'][q] for q in o)): return covers('edges', rx.vals[1], o, len(E))
        return 'the remaining edges are %s, the property requires the last edge in slot %d and the others as they were: %s' % (rp(gx.get(A.edges)), k, rp(tuple(val['E'][q] for q in opts[0])))
    cx.eq('remove_edge', fn, code, spec, 'strays take the edge with them; otherwise exactly this edge goes and at most the last one moves; every slot with a different content is reported', gr, pre=there, judge=judge, eps=GEPS, alts=[alt])

# ------------------------------------------------------------------ C26, C27
def neg_lits(lits, a, b):
    """do the path literals imply a < b ?"""
    d = rpoly(sub(a, b))
    for q, c, v in lits:          # literal  (q <= c) is v
        p = rpoly(q)
        if v:
            if padd(p, d, -1) == () and c <= -1: return True
        elif padd(p, d) == () and c >= 0: return True       # -d > c  =>  d < -c
    return False
def paths(t, lits, leaf):
    """paths of a diagram to a leaf; literals over integer atoms only"""
    if t.op != 'ite':
        if leaf(t): yield lits
        return
    k, q, c, _ = t.a[0].a
    for v, s in ((True, t.a[1]), (False, t.a[2])):
        yield from paths(s, lits + ([(q, c, v)] if k == 'le' else []), leaf)
class Pigeon:
    """A set of edge slots k, each with an endpoint w(k) < x that has no other edge, has at most x members; at most x-1
    if some r < x is none of the w(k): the w(k) are pairwise different, since two slots would give w degree 2."""
    def __init__(s, A): s.A = A; s.memo = {}
    def bound(s, t, x, lits):
        """largest value of sum term t relative to x: x - result; None if the lemma does not apply"""
        A = s.A
        if t.op != 'sum' or not all(l is ZERO or l is ONE for l in leaves(t.a[3])): return None
        k = ix(t.a[0]); body = open_(t, k)
        E = None
        if t.a[0] is not A.m: return None
        us = [A.U(A.E, k), A.V(A.E, k)]; degs = [A.deg(w) for w in us]
        roots = None; n = 0
        for p in paths(body, [], lambda l: l is ONE):
            n += 1
            if n > 4000: return None
            ok_ = set()
            for w, dg in zip(us, degs):
                if not any(q is dg and c <= 1 and v for q, c, v in p): continue
                if neg_lits(p, w, x): ok_ |= {None} | {r for r in s.cands(p, w) if neg_lits(p, w, r) or neg_lits(p, r, w)}
            if not ok_: return None
            roots = ok_ if roots is None else roots & ok_
        if roots is None: return 0
        if any(r is not None and neg_lits(lits, r, x) for r in roots): return 1
        return 0
    def cands(s, p, w):
        out = set()
        for q, c, v in p:
            for sg in (1, -1):
                r = padd(rpoly(w), rpoly(q), -sg)    # r with w - r = sg*q
                r = rat(r)
                if r.op != 'num': out.add(r)
        return out
    def contradicts(s, q, c, v, lits):
        """is literal (q <= c) == v impossible by the lemma?"""
        p = rpoly(q)
        for mo, co in p:
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'sum' and abs(co) == 1:
                t = mo[0][0]; rest = pmake({a: b for a, b in p if a != mo})
                # q = co*t + rest
                if co == -1 and v: x = rat(rest); lo = -c                   # t >= rest - c
                elif co == 1 and not v: x = rat(pscale(rest, -1)); lo = c + 1    # t >= -rest + c + 1
                else: continue
                b = s.bound(t, x, lits)
                if b is not None and lo > -b: return True
        return False
    def refute(s, t, lits=()):
        """no path of t to true is feasible"""
        lits = list(lits)
        if t is FALSE: return True
        if t.op != 'ite': return False
        k, q, c, _ = t.a[0].a
        for v, b in ((True, t.a[1]), (False, t.a[2])):
            if b is FALSE: continue
            l2 = lits
            if k == 'le':
                if s.contradicts(q, c, v, lits): continue
                l2 = lits + [(q, c, v)]
            elif k == 'b' and v and q.op == 'exists':
                w = ix(q.a[0])
                if s.refute(open_(q, w), lits): continue
            if not s.refute(b, l2): return False
        return True
def c27(cx):
    A = G(cx)
    pg = Pigeon(A)
    def ob(nm, who, args, dom, extra=None):
        cx.panics('%s never panics' % nm, who, lambda f: cx.summ(f, ['g', 'x', 'y', 'z'][:1 + len(args)], [A.g] + args), extra or FALSE, 'every panic condition of the summary is unsatisfiable for graphs whose edges join existing nodes', dom, refute=pg.refute, eps=GEPS)
    i, e, a, b = nat_sym('i'), nat_sym('e'), nat_sym('a'), nat_sym('b'); p, d = pt('p'), sym('d')
    for nm, args in (('node_count', []), ('edge_count', []), ('get_nodes', []), ('get_edges', []), ('get_vertex', [i]), ('get_edge', [i]), ('has_node_at_index', [i]), ('has_edge_at_index', [i]),
                     ('has_edge_between_nodes', [a, b]), ('number_of_edges_incident_to', [i])):
        ob('PlanarGraph::' + nm, lambda nm=nm: A.gm(nm), args, d_graph(A, 'i', 'a', 'b'))
    ob('PlanarGraph::add_node', lambda: A.gm('add_node'), [p, d], d_graph(A, 'p', 'd'))
    ob('PlanarGraph::remove_node', lambda: A.gm('remove_node'), [i], d_graph(A, 'i'))
    ob('PlanarGraph::remove_edge', lambda: A.gm('remove_edge'), [e], d_graph(A, 'e'))
    there = b_and(ilt(a, A.n), ilt(b, A.n))
    ob('PlanarGraph::add_edge (missing endpoint)', lambda: A.gm('add_edge'), [a, b, d], d_graph(A, 'a', 'b', 'd'), there)
    aI, bI = nat_sym('aI'), nat_sym('bI'); bound(A, aI, bI)
    ob('PlanarGraph::add_edge (existing endpoints)', lambda: A.gm('add_edge'), [aI, bI, d], existing(d_graph(A, 'd'), 'aI', 'bI'))
    def numbers(ob_):
        roots = [f['key'] for f in cx.p.d['fns'] if f['kind'] == 'AssocFn' and f.get('exported') and 'body' in f and f['path'].startswith(A.gp.rsplit('::', 1)[0] + '::') and not f.get('trait')]
        nan.rule(cx, ob_, roots)
    cx.run('no panic hinges on a NaN coordinate', None, 'no branch or unwrap reachable from the public graph operations panics on the outcome a float comparison has when an operand is NaN', numbers)
def c26(cx):
    A = G(cx); i, e = nat_sym('i'), nat_sym('e'); p, d = pt('p'), sym('d'); aI, bI = nat_sym('aI'), nat_sym('bI'); a, b = nat_sym('a'), nat_sym('b')
    bound(A, aI, bI)
    def judge(ev, val, x, y):
        n = len(x.get(A.nodes))
        for k, q in enumerate(x.get(A.edges)):
            for f in (A.src, A.dst):
                if not 0 <= q.get(f) < n: return 'edge %d has endpoint %s, but only %d nodes exist' % (k, rp(q.get(f)), n)
    judge.identity = False
    def ob(nm, args, dom, pre=TRUE, ref=None):
        def body(ob_):
            g = cx.summ(ob_.fn, ['g', 'x', 'y', 'z'][:1 + len(args)], [A.g] + args).muts['g']
            N2, E2 = proj(g, A.nodes), proj(g, A.edges)
            if pre is not TRUE and guard(pre, g) is guard(pre, A.g): ob_.detail = 'the graph is unchanged'; return
            if TM.index_of(E2, A.src, N2) and TM.index_of(E2, A.dst, N2): ob_.detail = 'both endpoints of every element of the resulting edge list are provably smaller than the length of the resulting node list'; return
            if ref is not None and guard(pre, g) is guard(pre, ref): ob_.detail = 'the resulting graph has the canonical form of the reference operation, for which the invariant is proved in DESIGN.md'; return
            cx.separate(ob_, ob_.fn, g, A.g, dom, pre, judge, GEPS, None, '')
        cx.run('PlanarGraph::%s keeps every endpoint an existing node' % nm, lambda: A.gm(nm.split()[0]), 'endpoints of all resulting edges are indices of the resulting nodes, given that they were before', body)
    ob('add_node', [p, d], d_graph(A, 'p', 'd'))
    there = b_and(ilt(a, A.n), ilt(b, A.n))
    ob('add_edge (missing endpoint)', [a, b, d], d_graph(A, 'a', 'b', 'd'), b_not(there))
    ob('add_edge (existing endpoints)', [aI, bI, d], existing(d_graph(A, 'd'), 'aI', 'bI'))
    ob('remove_node (missing)', [i], d_graph(A, 'i'), b_not(ilt(i, A.n)))
    ob('remove_node (existing)', [i], d_graph(A, 'i'), ilt(i, A.n), proj(remove_spec(A, A.N, A.E, i), '1'))
    ob('remove_edge (missing)', [e], d_graph(A, 'e'), b_not(ilt(e, A.m)))
    u, v = A.U(A.E, e), A.V(A.E, e); su, sv = ieq(A.deg(u), ONE), ieq(A.deg(v), ONE)
    rm = lambda w: proj(remove_spec(A, A.N, A.E, w), '1')
    cut = A.graph(A.N, swap_remove(A.E, e))
    ob('remove_edge (existing)', [e], d_graph(A, 'e'), ilt(e, A.m), ite(su, rm(u), ite(sv, rm(v), ite(ile(A.m, ONE), A.g, cut))))
    cx.fact('only the add and remove operations change a graph', None, 'the fields of PlanarGraph, Node and Edge are private; no other exported function has a &mut graph, node or edge whose final value differs, none returns &mut access', lambda ob_: encapsulated(cx, A, ob_))
OPS = ('add_node', 'add_edge', 'remove_node', 'remove_edge')
def encapsulated(cx, A, ob):
    bad = []
    for path, fs_ in ((A.gp, A.gf), (A.np, A.nf), (A.ep, A.ef)):
        for n_, ty, vis in fs_:
            if vis == 'pub' and not (path == A.np and n_ != A.pos) and not (path == A.ep and n_ not in (A.src, A.dst)): bad.append('field `%s` of %s is public: anyone can write it' % (n_, path.split('::')[-1]))
    for f in cx.p.d['fns']:
        if not f.get('exported') or 'body' not in f or 'inputs' not in f or f['kind'] == 'closure': continue
        takes = []
        for k, x in enumerate(f['inputs']):
            t = cx.p.ty(x)
            if t['k'] == 'ref' and t['mut'] and cx.p.strip(x)[1].get('path') in (A.gp, A.np, A.ep): takes.append((k, cx.p.strip(x)[1]['path']))
        if not takes: continue
        out = cx.p.ty(f.get('output', -1))
        if gives_mut(cx, f.get('output', -1)): bad.append('%s hands out mutable access' % cx.site(f)); continue
        if f['name'] in OPS and not f.get('trait') and takes[0][1] == A.gp: continue
        if f.get('trait'): continue
        init = {A.gp: A.g, A.np: A.node(pt('p'), sym('nd'), sym('nl')), A.ep: A.edge(nat_sym('s'), nat_sym('t'), sym('ed'), sym('el'))}
        try:
            names_ = ['x%d' % k for k in range(len(f['inputs']))]
            q = cx.summ(f, names_, [dict(takes).get(k) and init[dict(takes)[k]] for k in range(len(f['inputs']))])
            for k, path in takes:
                fin = q.muts[names_[k]]; was = init[path]
                keep = ((A.nodes, A.edges) if path == A.gp else (A.pos,) if path == A.np else (A.src, A.dst))
                for fld in keep:
                    if proj(fin, fld) is proj(was, fld): continue
                    o2 = Ob(ob.name + '/' + f['name'], f, ob.rule)
                    cx.compare(o2, f, proj(fin, fld), proj(was, fld), d_args(cx, f, A, [k for k, _ in takes]))
                    if o2.status == 'violated': bad.append('%s changes field `%s`: %s' % (cx.site(f), fld, o2.detail)); break
        except Exception as e: cx.notes.append('%s not analysed: %r' % (f['path'], e))
    return bad
def gives_mut(cx, ti, depth=0):
    if ti is None or ti == -1 or depth > 4: return False
    t = cx.p.ty(ti)
    if t['k'] == 'ref' and t['mut']: return True
    if t['k'] == 'adt' and 'Mut' in t['path'].split('::')[-1]: return True
    return any(gives_mut(cx, x, depth + 1) for x in t.get('args', []) or [] if isinstance(x, int))
def d_args(cx, f, A, takes):
    base = d_graph(A)
    def g(rng, h, i):
        val = base(rng, h, i)
        val.update({'px': h.number(rng), 'py': h.number(rng), 'nd': 'nd', 'nl': 'nl', 's': F(rng.randint(0, 4)), 't': F(rng.randint(0, 4)), 'ed': 'ed', 'el': 'el'})
        for k, x in enumerate(f['inputs']):
            if k in takes: continue
            t = cx.p.strip(x)[1]; nm = 'x%d' % k
            if t['k'] in ('uint', 'int'): val[nm] = h.index(rng, len(val['N']))
            elif t['k'] == 'bool': val[nm] = rng.random() < 0.5
            elif t['k'] == 'float': val[nm] = h.number(rng)
            elif t['k'] == 'param': val[nm] = 'new'
            else: val[nm] = Rec('Vec2', ('x', 'y'), (h.number(rng), h.number(rng)))
        return val
    return g

PROPS = {'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26, 'C27': c27}
