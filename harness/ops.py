"""Jobs for the parts of the library that are specified as operations on one
object (spec/OpTrace.tla and the modules that extend it).

Every job function takes a list of items and returns one trace per item, so
that one failing item can be replayed alone.  An item is JSON; random items
are just a seed.
"""
import copy
import io
import math
import random

import numpy as np

INF = 1000000000


class LibraryFailure(Exception):
    library = True


def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def next_draws(us, rng):
    """Makes numpy's global generator return these as its next uniforms."""
    key = [rng.getrandbits(32) for _ in range(624)]
    for i, u in enumerate(us):
        x = int(u * 2 ** 53)
        key[2 * i] = _untemper((x >> 26) << 5)
        key[2 * i + 1] = _untemper((x & (2 ** 26 - 1)) << 6)
    np.random.set_state(('MT19937', np.array(key, dtype=np.uint32), 0))


def each(f):
    """Job function from a function of one item."""
    def job(qt, id, items, **kw):
        out = []
        for n, item in enumerate(items):
            tr = f(qt, item, **kw)
            tr['id'] = '%s.%d' % (id, n)
            out.append(tr)
        return out
    return job


# ---- C21: the event scheduler -------------------------------------------
def _pops(ret):
    if ret is None:
        return []
    return [ret[0], int(ret[1]) + 1]


@each
def sched_replay(qt, item, n=2):
    """A sequence generated from the specification: [t, k] pushes, [] pops;
    its first `keys` pushes are given at construction."""
    from queueing_tool.network.priority_queue import PriorityQueue
    keys, ops = item
    while keys and [] in ops[:keys]:
        keys -= 1
    init = [(float(t), k - 1) for t, k in ops[:keys]]
    q = PriorityQueue(init, n) if keys else PriorityQueue([], n)
    lines = []
    for o in ops[keys:] + [[]] * (n + 2):
        if o:
            q.push(float(o[0]), o[1] - 1)
            lines.append({'op': 'push', 't': o[0], 'k': o[1]})
        else:
            r = _pops(q.pop())
            if r:
                r[0] = int(r[0]) if r[0] == int(r[0]) else -7
            lines.append({'op': 'pop', 'ret': r})
    return {'cfg': {'n': n, 'keys': [{'t': t, 'k': k} for t, k in ops[:keys]]}, 'lines': lines}


@each
def sched_random(qt, item):
    from queueing_tool.network.priority_queue import PriorityQueue
    rng = random.Random(item)
    n = rng.choice([1, 2, 3, 5, 8, 20, 40])
    grid = rng.random() < 0.5
    draw = (lambda: float(rng.randrange(12))) if grid else (lambda: rng.expovariate(1.0))
    keys = [(draw(), rng.randrange(n)) for _ in range(rng.choice([0, 0, 1, 2, n, 2 * n]))]
    if rng.random() < 0.6:
        keys = list({k: (t, k) for t, k in keys}.values())
    q = PriorityQueue(keys, n)
    log = []
    ppush = rng.choice([0.5, 0.6, 0.8])
    clock = 0.0
    for _ in range(rng.choice([30, 60, 150])):
        if rng.random() < ppush:
            t, k = clock + draw(), rng.randrange(n)
            q.push(t, k)
            log.append(('push', t, k))
        else:
            r = q.pop()
            log.append(('pop', r))
            if r is not None and rng.random() < 0.5:
                clock = r[0]
        if rng.random() < 0.03:
            ppush = rng.choice([0.3, 0.5, 0.8])
    for _ in range(n + 2):
        log.append(('pop', q.pop()))
    times = sorted({t for t, _ in keys} | {x[1] for x in log if x[0] == 'push'}
                   | {x[1][0] for x in log if x[0] == 'pop' and x[1] is not None})
    rank = {t: i + 1 for i, t in enumerate(times)}
    lines = []
    for x in log:
        if x[0] == 'push':
            lines.append({'op': 'push', 't': rank[x[1]], 'k': x[2] + 1})
        else:
            r = _pops(x[1])
            if r:
                r[0] = rank[r[0]]
            lines.append({'op': 'pop', 'ret': r})
    return {'cfg': {'n': n, 'keys': [{'t': rank[t], 'k': k + 1} for t, k in keys]}, 'lines': lines}


# ---- C26: union-find ------------------------------------------------------
def _uf_state(u, elems):
    c = copy.deepcopy(u)
    lead = [elems.index(c.find(e)) + 1 for e in elems]
    c = copy.deepcopy(u)
    return lead, [int(c.size(e)) for e in elems]


def _uf_run(qt, elems, ops, seen):
    u = qt.union_find.UnionFind(elems) if hasattr(qt, 'union_find') else qt.UnionFind(elems)
    lines = []
    for i, o in enumerate(ops):
        ln = {'op': o[0], 'a': o[1], 'b': o[2] if len(o) > 2 else 0, 'ret': 0, 'ncl': 0, 'seen': seen(i),
              'lead': [], 'size': []}
        a = elems[o[1] - 1]
        if o[0] == 'union':
            u.union(a, elems[o[2] - 1])
        elif o[0] == 'find':
            ln['ret'] = elems.index(u.find(a)) + 1
        else:
            ln['ret'] = int(u.size(a))
        ln['ncl'] = int(u.nClusters)
        if ln['seen']:
            ln['lead'], ln['size'] = _uf_state(u, elems)
        lines.append(ln)
    return {'cfg': {'n': len(elems)}, 'lines': lines}


@each
def uf_replay(qt, item, n=4):
    ops = [['union'] + o if len(o) == 2 else ['find'] + o for o in item]
    return _uf_run(qt, list(range(n)), ops + [['size', 1]], lambda i: True)


@each
def uf_random(qt, item):
    rng = random.Random(item)
    n = rng.choice([1, 2, 5, 9, 16])
    kind = rng.randrange(3)
    elems = list(range(n)) if kind == 0 else ['v%d' % i for i in range(n)] if kind == 1 else \
        [(i, i % 3) for i in range(n)]
    ops = []
    for _ in range(rng.choice([8, 20, 40])):
        r = rng.random()
        a, b = rng.randint(1, n), rng.randint(1, n)
        ops.append(['union', a, b] if r < 0.5 else ['find', a] if r < 0.8 else ['size', a])
    if rng.random() < 0.4:      # merge equals, which builds deep trees
        w = 1
        ops = []
        while w < n:
            for s in range(0, n - w, 2 * w):
                ops.append(['union', s + 1 + rng.randrange(w), s + w + 1 + rng.randrange(min(w, n - s - w))])
            w *= 2
        ops += [['find', rng.randint(1, n)] for _ in range(5)]
    every = rng.choice([1, 1, 4])
    return _uf_run(qt, elems, ops, lambda i: i % every == 0)


# ---- C18, C10: routing -----------------------------------------------------
def text(x):
    return repr(float(x) + 0.0) if x != 0 else '0.0'


def prob(x):
    x = float(x)
    return {'r': text(x), 'u': int(round(x * 1e6)), 's': (x > 0) - (x < 0)}


def _digraph(rng, n, dens, terminal=True):
    E = {(v, u) for v in range(n) for u in range(n) if rng.random() < dens}
    if terminal and n > 1:
        t = rng.randrange(n)
        E = {e for e in E if e[0] != t}
    for v in range(n):          # nobody isolated
        if not any(v in e for e in E):
            E.add((v, rng.randrange(n)))
    return sorted(E)


def _plain_net(qt, rng, E, n, **kw):
    import networkx as nx
    g = nx.DiGraph()
    vs = list(range(n))
    rng.shuffle(vs)
    g.add_nodes_from(vs)
    es = list(E)
    rng.shuffle(es)
    for e in es:
        g.add_edge(*e, edge_type=1 if any(f[0] == e[1] for f in E) else 0)
    g = g if rng.random() < 0.5 else qt.QueueNetworkDiGraph(g)
    return qt.QueueNetwork(g, **kw)


def _look(net, n):
    td, tm = net.transitions(False), net.transitions()
    tm2 = net.transitions(return_matrix=True)
    if not np.array_equal(tm, tm2):
        tm = tm2
    d = []
    for v in range(n):
        row = td.get(v, {})
        d.append([{'t': int(t) + 1, 'r': text(p)} for t, p in sorted(row.items())])
    extra = [v for v in td if v not in range(n)]
    if extra:
        d.append([{'t': 0, 'r': 'extra %s' % extra}])
    m = [[text(x) for x in row] for row in np.asarray(tm)]
    if len(m) != n or any(len(r) != n for r in m):
        m = [['shape'] * n for _ in range(n)]
    return {'td': d, 'tm': m}


def _cfg(net, E, n):
    srt = sorted(E)
    out = [[e[1] + 1 for e in srt if e[0] == v] for v in range(n)]
    m = max([len(o) for o in out] + [1])
    return {'n': n, 'out': out, 'eidx': [[i for i, e in enumerate(srt) if e[0] == v] for v in range(n)],
            'inv': [text(1. / k) for k in range(1, m + 1)], 'invu': [int(round(1e6 / k)) for k in range(1, m + 1)]}


def _good(rng, k):
    """k probabilities that sum to one, some possibly zero."""
    kind = rng.randrange(5)
    if kind == 0:
        w = [0.0] * k
        w[rng.randrange(k)] = 1.0
    elif kind == 1:
        w = [float(rng.randrange(4)) for _ in range(k)]
        w[rng.randrange(k)] += 1.0
    elif kind == 2:
        cut = sorted(rng.randrange(65) for _ in range(k - 1))
        w = [float(b - a) for a, b in zip([0] + cut, cut + [64])]
    else:
        w = [rng.random() for _ in range(k)]
    s = sum(w)
    return [x / s for x in w]


def _bad_row(rng, targets, k):
    """A row for those targets that must be rejected."""
    kind = rng.randrange(4)
    row = dict(zip(targets, _good(rng, k)))
    t = rng.choice(targets)
    if kind == 0:
        row[t] += rng.choice([0.01, 0.3, 1.0, 0.0005])
    elif kind == 1:
        row = {t: p * rng.choice([0.5, 0.9, 0.999]) for t, p in row.items()}
    elif kind == 2 and k > 1:
        u = rng.choice([x for x in targets if x != t])
        d = row[t] + rng.choice([0.25, 0.001])
        row[t] -= d
        row[u] += d
    else:
        row = {t: 0.0 for t in targets}
    return row


@each
def routing(qt, item):
    rng = random.Random(item)
    n = rng.choice([1, 2, 3, 4, 5])
    E = _digraph(rng, n, rng.choice([0.4, 0.7, 1.0]))
    net = _plain_net(qt, rng, E, n)
    other = net.copy() if rng.random() < 0.2 else None
    out = [sorted(e[1] for e in E if e[0] == v) for v in range(n)]
    nonterm = [v for v in range(n) if out[v]]
    lines = [dict(op='look', **_look(net, n)),
             {'op': 'edges', 'oe': [[int(k) for k in net.out_edges[v]] for v in range(n)]}]

    def rows_of(d):
        return [{'v': v + 1 if isinstance(v, (int, np.integer)) and 0 <= v < n else 0,
                 'row': [{'t': int(t) + 1, 'p': prob(p)} for t, p in sorted(d[v].items())]}
                for v in d]
    for _ in range(rng.randint(3, 9)):
        kind = rng.choice(['dict', 'dict', 'dict', 'matrix', 'matrix', 'shape', 'other'])
        bad = rng.random() < 0.45
        if not nonterm:
            break
        if kind == 'dict':
            vs = rng.sample(nonterm, rng.randint(1, len(nonterm)))
            arg = {}
            for v in vs:
                row = dict(zip(out[v], _good(rng, len(out[v]))))
                if rng.random() < 0.5:
                    row = {t: p for t, p in row.items() if p != 0.0}
                items = list(row.items())
                rng.shuffle(items)
                arg[v] = dict(items)
            if bad:
                how = rng.randrange(4)
                v = rng.choice(vs)
                if how == 0:
                    arg[rng.choice([n, n + 2, -1])] = {rng.randrange(n): 1.0}
                elif how == 1:
                    non = [t for t in range(n + 2) if t not in out[v]]
                    if non:
                        t = rng.choice(non)
                        if rng.random() < 0.5:
                            arg[v] = {t: 1.0}
                        else:
                            arg[v][t] = rng.choice([0.25, 1.0])
                    else:
                        arg[v] = _bad_row(rng, out[v], len(out[v]))
                else:
                    arg[v] = _bad_row(rng, out[v], len(out[v]))
                its = list(arg.items())
                rng.shuffle(its)
                arg = dict(its)
            given = copy.deepcopy(arg)
            rows = rows_of(arg)
        elif kind == 'matrix':
            arg = np.zeros((n, n))
            for v in nonterm:
                arg[v, out[v]] = _good(rng, len(out[v]))
            if bad:
                v = rng.choice(nonterm)
                if rng.random() < 0.3 and len(out[v]) < n:
                    t = rng.choice([t for t in range(n) if t not in out[v]])
                    arg[v, t] += 0.25
                    if rng.random() < 0.5:
                        arg[v] /= arg[v].sum()
                else:
                    arg[v] = 0
                    for t, p in _bad_row(rng, out[v], len(out[v])).items():
                        arg[v, t] = p
            given = arg.copy()
            rows = [{'v': v + 1, 'row': [{'t': t + 1, 'p': prob(arg[v, t])} for t in range(n)]} for v in range(n)]
        elif kind == 'shape':
            m = rng.choice([(n, n + 1), (n + 1, n), (n + 1, n + 1), (n,), (n, n, n)] +
                           ([(n - 1, n - 1)] if n > 1 else []))
            arg = np.ones(m) / m[-1]
            given, rows = arg.copy(), []
        else:
            arg = rng.choice([1, 'abc', None, [[1.0]], [(0, {0: 1.0})], 0.5, (1.0,)])
            given, rows = copy.deepcopy(arg), []
        err = ''
        try:
            r = net.set_transitions(arg)
        except Exception as ex:
            err = type(ex).__name__
        ln = dict(op='set', kind=kind, rows=rows, err=err, **_look(net, n))
        lines.append(ln)
        if rng.random() < 0.3 and kind == 'matrix' and not err:
            arg[:] = -1            # the caller's own array may change afterwards
            lines.append(dict(op='look', **_look(net, n)))
        if rng.random() < 0.2:
            w = np.asarray(net.transitions())
            w[:] = 7
            d = net.transitions(False)
            for v in d:
                d[v].clear()
            lines.append(dict(op='look', **_look(net, n)))
        if rng.random() < 0.15 and other is None:
            net2 = net.copy()
            v = rng.choice(nonterm)
            net2.set_transitions({v: {out[v][0]: 1.0}})
            lines.append(dict(op='look', **_look(net, n)))
            if rng.random() < 0.5:
                net = net.copy()
                lines.append(dict(op='look', **_look(net, n)))
        if rng.random() < 0.15:
            net.clear()
            lines.append(dict(op='look', **_look(net, n)))
    return {'cfg': _cfg(net, E, n), 'lines': lines}


@each
def choices(qt, item, m=6000):
    """Default destination choices after changing probabilities."""
    rng = random.Random(item)
    np.random.seed(rng.randrange(2 ** 31))
    n = rng.choice([1, 2, 3, 4, 6])
    E = _digraph(rng, n, rng.choice([0.5, 0.8, 1.0]), terminal=False)
    E = sorted(set(E) | {(v, (v + 1) % n) for v in range(n)})
    net = _plain_net(qt, rng, E, n)
    out = [sorted(e[1] for e in E if e[0] == v) for v in range(n)]
    lines = []
    agent = qt.Agent((0, 0))
    for step in range(rng.randint(2, 4)):
        for v in rng.sample(range(n), min(n, 2)):
            k = len(out[v])
            if step:
                w = [rng.randrange(0, 5) for _ in range(k)]
                w[rng.randrange(k)] += 1
                while sum(w) not in (1, 2, 4, 8, 16, 32):
                    w[rng.randrange(k)] += 1
                row = {t: x / float(sum(w)) for t, x in zip(out[v], w)}
                if rng.random() < 0.5:
                    net.set_transitions({v: row})
                else:
                    mat = np.array(net.transitions())
                    mat[v] = 0
                    for t, x in row.items():
                        mat[v, t] = x
                    net.set_transitions(mat)
                lines.append(dict(op='set', kind='dict', err='',
                                  rows=[{'v': v + 1, 'row': [{'t': t + 1, 'p': prob(x)} for t, x in row.items()]}],
                                  **_look(net, n)))
            into = [q.edge for q in net.edge2queue if q.edge[1] == v]
            cnt, pairs, off, last = [0] * k, [[0] * k for _ in range(k)], 0, None
            where = {net.g.edge_index[(v, t)]: j for j, t in enumerate(out[v])}
            for i in range(m):
                e = into[i % len(into)]
                if i % 50 == 0:
                    agent = qt.Agent((e[2], i))
                j = where.get(int(agent.desired_destination(net, e)))
                if j is None:
                    off += 1
                    continue
                cnt[j] += 1
                if last is not None:
                    pairs[last][j] += 1
                last = j
            lines.append({'op': 'choose', 'v': v + 1, 'cnt': cnt, 'pairs': pairs, 'off': off})
    # extreme draws: whatever is drawn, an edge of probability zero is not taken
    for v in range(n):
        k = len(out[v])
        if k < 2:
            continue
        for _ in range(4):
            on = sorted(rng.sample(range(k), rng.randint(1, k - 1)))
            w = {j: rng.choice([1, 1, 2, 3]) for j in on}
            row = {out[v][j]: w[j] / float(sum(w.values())) for j in on}
            if rng.random() < 0.6:
                row[out[v][on[-1]]] -= rng.choice([9e-6, 1e-9, 1e-16])
            net.set_transitions({v: row})
            lines.append(dict(op='set', kind='dict', err='',
                              rows=[{'v': v + 1, 'row': [{'t': t + 1, 'p': prob(x)} for t, x in row.items()]}],
                              **_look(net, n)))
            ps = np.cumsum([row.get(t, 0.0) for t in out[v]])
            cnt, off = [0] * k, 0
            where = {net.g.edge_index[(v, t)]: j for j, t in enumerate(out[v])}
            e = [q.edge for q in net.edge2queue if q.edge[1] == v][0]
            for u in [0.0, 1 - 2.0 ** -53, 0.999995, 0.5] + [min(float(x), 1 - 2.0 ** -53) for x in ps]:
                next_draws([u], rng)
                j = where.get(int(agent.desired_destination(net, e)))
                if j is None:
                    off += 1
                else:
                    cnt[j] += 1
            lines.append({'op': 'extreme', 'v': v + 1, 'cnt': cnt, 'off': off})
    # probabilities that are not multiples of 1/64 only get the exact checks
    tr = {'cfg': _cfg(net, E, n), 'lines': lines}
    return tr


# ---- C28: the graph object --------------------------------------------------
def val(x):
    """Text of a property value."""
    if x is None:
        return 'None'
    if isinstance(x, np.ndarray):
        return str([float(y) for y in x])
    if isinstance(x, (list, tuple)):
        return str([float(y) if isinstance(y, (float, np.floating)) else y for y in x])
    if isinstance(x, (np.integer,)):
        return str(int(x))
    if isinstance(x, (np.floating,)):
        return repr(float(x))
    return repr(x) if isinstance(x, float) else str(x)


def _seen(g, epn, vpn, types):
    nodes = sorted(g.nodes())
    edges = list(g.edges())
    o = {'idx': [{'e': [e[0] + 1, e[1] + 1], 'i': int(i)} for e, i in g.edge_index.items()
                 if g.has_edge(*e)],
         'edges': [[e[0] + 1, e[1] + 1] for e in edges],
         'isedge': [[u + 1, v + 1] for u in nodes for v in nodes if g.is_edge((u, v))],
         'ep': [{'e': [e[0] + 1, e[1] + 1], 'name': p, 'v': val(g.ep(e, p))} for e in edges for p in epn],
         'vp': [{'x': v + 1, 'name': p, 'v': val(g.vp(v, p))} for v in nodes for p in vpn],
         'epn': sorted(g.edge_properties()), 'vpn': sorted(g.vertex_properties()),
         'ty': [{'y': str(y), 'es': [[e[0] + 1, e[1] + 1] for e in g.get_edge_type(y)]} for y in types],
         'nb': [{'x': v + 1, 'vs': [int(u) + 1 for u in g.out_neighbours(v)]} for v in nodes],
         'ecol': [val(x) for x in g.edge_color] if g.edge_color is not None else [],
         'vcol': [val(x) for x in g.vertex_fill_color] if g.vertex_fill_color is not None else [],
         'haspos': g.pos is not None, 'pos': [val(x) for x in g.pos] if g.pos is not None else []}
    return o


@each
def digraph(qt, item):
    import networkx as nx
    rng = random.Random(item)
    n = rng.choice([1, 2, 3, 4, 5])
    E = _digraph(rng, n, rng.choice([0.3, 0.6]))
    g0 = nx.DiGraph()
    vs = list(range(n))
    rng.shuffle(vs)
    g0.add_nodes_from(vs)
    es = list(E)
    rng.shuffle(es)
    types = [0, 1, 2, 3]
    ep, vp = [], []
    for e in es:
        if rng.random() < 0.7:
            y = rng.choice(types)
            g0.add_edge(*e, edge_type=y)
            ep.append({'x': [e[0] + 1, e[1] + 1], 'name': 'edge_type', 'v': str(y)})
        else:
            g0.add_edge(*e)
    haspos = rng.random() < 0.3
    if haspos:
        for v in vs:
            p = [rng.random(), rng.random()]
            g0.nodes[v]['pos'] = p
            vp.append({'x': v + 1, 'name': 'pos', 'v': val(p)})
    g = qt.QueueNetworkDiGraph(g0)
    epn, vpn = ['edge_type', 'w', 'pos', 'edge_color', 'none'], ['name', 'pos', 'edge_color', 'vertex_fill_color', 'none']
    lines = []
    cfg = {'nodes': [v + 1 for v in vs], 'edges': [[e[0] + 1, e[1] + 1] for e in E], 'ep': ep, 'vp': vp}

    def note(**kw):
        lines.append(dict(kw, o=_seen(g, epn, vpn, types)))
    note(op='look')
    colored = removed = False
    for _ in range(rng.randint(4, 14)):
        k = rng.choice(['add_edge', 'add_edge', 'add_edge', 'set_ep', 'set_ep', 'set_vp', 'new_ep', 'new_vp',
                        'set_pos', 'bulk', 'bulk', 'remove'])
        edges, nodes = sorted(g.edges()), sorted(g.nodes())
        if k == 'add_edge':
            big = max(nodes) + 1
            e = (rng.choice(nodes), rng.choice(nodes))
            if rng.random() < 0.15 and not haspos and g.pos is None and g.vertex_fill_color is None:
                e = rng.choice([(e[0], big), (big, e[1])])
            attrs = {}
            if rng.random() < 0.5:
                attrs['edge_type'] = rng.choice(types)
            if rng.random() < 0.3:
                attrs['w'] = rng.randrange(9)
            g.add_edge(*e, **attrs)
            note(op=k, e=[e[0] + 1, e[1] + 1], attrs=[{'name': a, 'v': val(b)} for a, b in attrs.items()])
        elif k == 'bulk':
            es = [(rng.choice(nodes), rng.choice(nodes)) for _ in range(rng.randint(1, 4))]
            with_w = [rng.randrange(9) if rng.random() < 0.4 else None for _ in es]
            arg = [e if w is None else e + ({'w': w},) for e, w in zip(es, with_w)]
            same = {'edge_type': rng.choice(types)} if rng.random() < 0.4 else {}
            g.add_edges_from(rng.choice([list, tuple, iter])(arg), **same)
            note(op='add_edges', es=[{'e': [e[0] + 1, e[1] + 1],
                                      'attrs': [{'name': a, 'v': val(b)} for a, b in same.items()] +
                                      ([] if w is None else [{'name': 'w', 'v': val(w)}])}
                                     for e, w in zip(es, with_w)])
        elif k == 'remove' and edges and g.edge_color is None and not colored and rng.random() < 0.7:
            e = rng.choice(edges)
            g.remove_edge(*e)
            removed = True
            note(op=k, e=[e[0] + 1, e[1] + 1])
        elif k == 'set_ep' and edges:
            e = rng.choice(edges)
            name = rng.choice(['edge_type', 'w', 'pos', 'edge_color'] + ['edge_color'] * (g.edge_color is not None))
            v = rng.choice(types) if name == 'edge_type' else rng.randrange(99) if name in ('w', 'pos') else \
                [rng.random() for _ in range(4)]
            g.set_ep(e, name, v)
            note(op=k, e=[e[0] + 1, e[1] + 1], name=name, v=val(v))
        elif k == 'set_vp':
            x = rng.choice(nodes)
            name = rng.choice(['name', 'edge_color', 'vertex_fill_color', 'pos'] +
                              ['vertex_fill_color'] * (g.vertex_fill_color is not None))
            v = 'n%d' % rng.randrange(99) if name == 'name' else [rng.random() for _ in range(2 + 2 * (name != 'pos'))]
            g.set_vp(x, name, v)
            note(op=k, x=x + 1, name=name, v=val(v))
        elif k == 'new_ep' and edges:
            name = rng.choice(['w', 'edge_color']) if not removed else 'w'
            colored = colored or name == 'edge_color'
            g.new_edge_property(name)
            note(op=k, name=name)
        elif k == 'new_vp':
            name = rng.choice(['name', 'vertex_fill_color'])
            if sorted(nodes) != list(range(len(nodes))):
                continue
            colored = colored or name == 'vertex_fill_color'
            g.new_vertex_property(name)
            note(op=k, name=name)
        elif k == 'set_pos':
            pos = {v: [rng.random(), rng.random()] for v in nodes}
            its = list(pos.items())
            rng.shuffle(its)
            g.set_pos(dict(its))
            haspos = True
            note(op=k, pos=[{'x': v + 1, 'v': val(p)} for v, p in pos.items()])
    return {'cfg': cfg, 'lines': lines}


# ---- C22: graph preparation ---------------------------------------------------
def _fingerprint(x):
    import networkx as nx
    if isinstance(x, np.ndarray):
        return x.tolist().__repr__()
    if isinstance(x, dict):
        return repr(sorted((k, sorted(v.items()) if isinstance(v, dict) else list(v)) for k, v in x.items()))
    if isinstance(x, nx.Graph):
        return repr((type(x).__name__, sorted((v, sorted(map(str, d.items()))) for v, d in x.nodes(data=True)),
                     sorted((tuple(sorted(e[:2])) if not x.is_directed() else e[:2],
                             sorted(map(str, e[2].items()))) for e in x.edges(data=True))))
    return repr(x)


@each
def prepare(qt, item):
    import networkx as nx
    rng = random.Random(item)
    np.random.seed(rng.randrange(2 ** 31))
    n = rng.choice([1, 2, 3, 4, 5, 6])
    form = rng.choice(['digraph', 'digraph', 'graph', 'dict', 'dict', 'matrix', 'qn'])
    mode = rng.choice(['net', 'net', 'net', 'raw', 'conv1', 'conv2'])
    if mode.startswith('conv') and form in ('digraph', 'graph', 'qn'):
        form = rng.choice(['dict', 'matrix'])
    types = rng.sample([0, 1, 2, 3, 4, 7], rng.randint(1, 4))
    E = _digraph(rng, n, rng.choice([0.25, 0.5, 0.8]), terminal=rng.random() < 0.7)
    if form == 'graph':
        E = sorted({tuple(sorted(e)) for e in E})
    full = mode == 'raw' or rng.random() < 0.4
    ty = {e: rng.choice(types) if full or rng.random() < 0.5 else -1 for e in E}
    if form == 'matrix' and mode in ('net', 'raw'):
        ty = {e: (1 if mode == 'raw' else -1) for e in E}
    nodes = list(range(n))
    if form in ('digraph', 'graph', 'qn'):
        g = nx.Graph() if form == 'graph' else nx.DiGraph()
        vs = nodes[:]
        rng.shuffle(vs)
        es = E[:]
        rng.shuffle(es)
        g.add_nodes_from(vs)
        for e in es:
            if ty[e] >= 0:
                g.add_edge(*e, edge_type=ty[e])
            else:
                g.add_edge(*e)
        if rng.random() < 0.3:
            for v in vs:
                g.nodes[v]['pos'] = (rng.random(), rng.random())
        if form == 'qn':
            g = qt.QueueNetworkDiGraph(g)
        arg, ety = g, None
    elif form == 'dict':
        style = rng.choice(['lists', 'dicts'])
        ety = None
        vs = nodes[:]
        rng.shuffle(vs)
        out = {v: [e for e in E if e[0] == v] for v in vs}
        for v in vs:
            rng.shuffle(out[v])
        keep = [v for v in vs if out[v] or rng.random() < 0.6
                or not any(v in e for e in E)]
        if mode in ('net', 'raw') or rng.random() < 0.5:
            arg = {v: {e[1]: ({'edge_type': ty[e]} if ty[e] >= 0 else {}) for e in out[v]} for v in keep}
        else:
            if style == 'lists':
                arg = {v: [e[1] for e in out[v]] for v in keep}
            else:
                arg = {v: {e[1]: {} for e in out[v]} for v in keep}
            if rng.random() < 0.7:
                ety = {v: {e[1]: ty[e] for e in out[v] if ty[e] >= 0} for v in vs}
                ety = {v: r for v, r in ety.items() if r}
                if not ety:
                    ety = None
            else:
                ty = {e: -1 for e in E}
        if mode == 'net' and all(x == -1 for x in ty.values()) and rng.random() < 0.5:
            arg = {v: [e[1] for e in out[v]] for v in keep}
    else:
        arg = np.zeros((n, n), int)
        for e in E:
            arg[e] = 1
        ety = None
        if mode.startswith('conv') and rng.random() < 0.7:
            ety = np.zeros((n, n), int)
            for e in E:
                if ty[e] > 0:
                    ety[e] = ty[e]
                else:
                    ty[e] = -1
        else:
            ty = {e: -1 if mode != 'raw' else 1 for e in E}
        if mode == 'raw':
            mode = 'net'
            ty = {e: -1 for e in E}
    cfg = {'nodes': [v + 1 for v in nodes], 'es': [{'e': [e[0] + 1, e[1] + 1], 'ty': ty[e]} for e in E],
           'form': 'digraph' if form in ('qn', 'matrix') and not mode.startswith('conv') else form, 'mode': mode,
           'q': []}
    before = _fingerprint(arg)
    err, o = '', {}
    if mode.startswith('conv'):
        try:
            before += _fingerprint(ety)
            g = qt.adjacency2graph(arg, edge_type=ety, adjust=int(mode[-1]))
        except Exception as ex:
            err = type(ex).__name__ + ': ' + str(ex)[:200]
        if not err:
            o = {'nodes': [v + 1 for v in g.nodes()], 'edges': [[e[0] + 1, e[1] + 1] for e in g.edges()],
                 'types': [{'e': [e[0] + 1, e[1] + 1], 'ty': int(g.adj[e[0]][e[1]].get('edge_type', -9))}
                           for e in g.edges()],
                 'before': before, 'after': _fingerprint(arg) + _fingerprint(ety), 'index': [], 'queues': [], 'out': [], 'in': [], 'nv': 0, 'ne': 0}
    else:
        classes, args = {}, {}
        used = set(ty.values()) | {0, 1}
        for y in sorted(used):
            if y < 0:
                continue
            cls, c, cap = '', 0, -1
            if y > 4 or (y and rng.random() < 0.5):
                cls = rng.choice(['QueueServer', 'LossQueue', 'ResourceQueue', 'InfoQueue', 'Mine'])
                classes[y] = Mine(qt) if cls == 'Mine' else getattr(qt, cls)
            if y and rng.random() < 0.6:
                args[y] = {}
                if rng.random() < 0.7:
                    c = rng.randint(1, 5)
                    args[y]['num_servers'] = c
                if rng.random() < 0.5:
                    cap = rng.randint(0, 9)
                    args[y]['active_cap'] = cap
            if cls or c or cap != -1:
                cfg['q'].append({'y': y, 'cls': cls, 'c': c, 'cap': cap})
        kw = {}
        if classes or rng.random() < 0.5:
            kw['q_classes'] = classes
        if args or rng.random() < 0.5:
            kw['q_args'] = args
        if mode == 'raw':
            kw['adjust_graph'] = False
        try:
            net = qt.QueueNetwork(arg, **kw)
        except Exception as ex:
            err = type(ex).__name__ + ': ' + str(ex)[:200]
        if not err:
            g = net.g
            o = {'nodes': [int(v) + 1 for v in g.nodes()], 'edges': [[e[0] + 1, e[1] + 1] for e in g.edges()],
                 'types': [{'e': [e[0] + 1, e[1] + 1], 'ty': int(g.ep(e, 'edge_type'))} for e in g.edges()],
                 'before': before if mode == 'net' else '', 'after': _fingerprint(arg) if mode == 'net' else '',
                 'index': [{'e': [e[0] + 1, e[1] + 1], 'i': int(i)} for e, i in g.edge_index.items()],
                 'queues': [{'u': q.edge[0] + 1, 'v': q.edge[1] + 1, 'i': int(q.edge[2]), 'ty': int(q.edge[3]),
                             'cls': type(q).__name__,
                             'c': 0 if type(q).__name__ == 'NullQueue' else int(q.num_servers),
                             'cap': INF if math.isinf(q.active_cap) else int(q.active_cap)}
                            for q in net.edge2queue],
                 'out': [[int(x) for x in net.out_edges[v]] for v in sorted(g.nodes())],
                 'in': [[int(x) for x in net.in_edges[v]] for v in sorted(g.nodes())],
                 'nv': int(net.num_vertices), 'ne': int(net.num_edges)}
            if net.num_nodes != net.num_vertices:
                o['nv'] = -1
    if err:
        o = {}
    return {'cfg': cfg, 'lines': [{'op': 'build', 'err': err, 'o': o}]}


_mine = []


def Mine(qt):
    if not _mine:
        class Mine(qt.QueueServer):
            pass
        _mine.append(Mine)
    return _mine[0]
