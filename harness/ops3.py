"""Twin histories: two executions that have to agree step by step."""
import hashlib
import math
import random

import numpy as np

import ops
from ops import each


def qobs(q):
    o = [repr(float(q.current_time)), repr(float(q.time)), q.num_system, q.number_queued(), repr(q.num_servers),
         q.num_departures, bool(q.active), [int(x) for x in q.num_arrivals], q.next_event_description(),
         getattr(q, 'num_blocked', None), getattr(q, 'over_max', None), bool(q.collect_data)]
    if q.collect_data or q.data:
        o.append(_h(np.asarray(q.fetch_data()).tolist()))
        o.append(_h(sorted((repr(tuple(map(int, k))), repr(v)) for k, v in q.data.items())))
    if hasattr(q, 'net_data'):
        o.append(_h(np.asarray(q.net_data).tolist()))
    return o


def _h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def nobs(net):
    o = [repr(float(net.current_time)), int(net.num_events), [int(x) for x in net.num_agents],
         repr(net.next_event_description()), repr(net.max_agents), net.blocking, _h(net.transitions().tolist())]
    return repr(o) + _h([qobs(q) for q in net.edge2queue])


def obs(x):
    return nobs(x) if hasattr(x, 'edge2queue') else repr(qobs(x))


def make(qt, rng):
    """A recipe: function(seed) -> new object, with default (random) arrival
    and service functions or documented ones; and a script of operations."""
    import networkx as nx
    if rng.random() < 0.3:
        cls = rng.choice(['QueueServer', 'LossQueue', 'ResourceQueue', 'InfoQueue'])
        kw = {'num_servers': rng.choice([1, 2, 3]), 'collect_data': rng.random() < 0.7}
        if rng.random() < 0.3:
            kw['active_cap'] = rng.choice([5, 20])
        if rng.random() < 0.3:
            kw['deactive_t'] = rng.choice([3.0, 10.0])
        if cls == 'LossQueue':
            kw['qbuffer'] = rng.choice([0, 2])
        if cls == 'InfoQueue':
            kw['net_size'] = 1
        if rng.random() < 0.3:
            rate = lambda t: 1 + math.sin(t)     # noqa: E731
            kw['arrival_f'] = lambda t: qt.poisson_random_measure(t, rate, 2.0)
        return 'queue', lambda seed: getattr(qt, cls)(seed=seed, **kw)
    n = rng.choice([2, 3, 4])
    E = sorted({(v, u) for v in range(n) for u in range(n) if rng.random() < 0.5} |
               {(v, (v + 1) % n) for v in range(n)} | ({(0, n)} if rng.random() < 0.6 else set()))
    ty = {e: 0 if e[1] == n else rng.choice([1, 2, 3]) for e in E}
    ty[E[0]] = 1
    cls = {y: rng.choice(['QueueServer', 'LossQueue', 'LossQueue', 'ResourceQueue', 'InfoQueue']) for y in (1, 2, 3)}
    args = {}
    for y in cls:
        args[y] = {'num_servers': rng.choice([1, 2]), 'collect_data': rng.random() < 0.6}
        if cls[y] == 'LossQueue':
            args[y]['qbuffer'] = rng.choice([0, 1, 5])
        if cls[y] == 'InfoQueue':
            args[y]['net_size'] = len(E)
        if cls[y] == 'QueueServer' and rng.random() < 0.3:
            args[y]['AgentFactory'] = qt.GreedyAgent
        if rng.random() < 0.2:
            args[y]['active_cap'] = 10
    if 'ResourceQueue' in cls.values() and 'GreedyAgent' in repr(args):
        args = {y: {k: v for k, v in a.items() if k != 'AgentFactory'} for y, a in args.items()}
    maxa = rng.choice([1000, 1000, 5, np.infty])
    blocking = rng.choice(['BAS', 'RS'])

    def build(seed):
        g = nx.DiGraph()
        g.add_nodes_from(range(n + (1 if (0, n) in E else 0)))
        for e in E:
            g.add_edge(*e, edge_type=ty[e])
        return qt.QueueNetwork(g, q_classes={y: getattr(qt, c) for y, c in cls.items()},
                               q_args={y: dict(a) for y, a in args.items()}, seed=seed, max_agents=maxa,
                               blocking=blocking)
    if any(c == 'ResourceQueue' for c in cls.values()):
        # a blocked agent whose target has lost all its servers for good waits for ever
        blocking = 'RS'
    return 'net', build


def script(rng, kind, m):
    """Operations on an object: list of functions."""
    ops = []

    def add(f):
        ops.append(f)
    if kind == 'queue':
        add(lambda q: q.set_active())
        for _ in range(m):
            k = rng.choice(['n', 'n', 't', 'nA', 'nD', 'act', 'coll', 'srv'])
            a = rng.choice([1, 2, 5])
            add({'n': lambda q, a=a: q.simulate(n=a), 't': lambda q, a=a: q.simulate(t=a / 2.),
                 'nA': lambda q, a=a: q.simulate(n=a), 'nD': lambda q, a=a: q.simulate(n=a),
                 'act': lambda q: q.set_active(), 'coll': lambda q, a=a: setattr(q, 'collect_data', a > 1),
                 'srv': lambda q, a=a: q.set_num_servers(a) if not hasattr(q, 'max_servers') else q.simulate(1)}[k])
        return ops
    k = rng.choice([1, 2, 10])
    how = rng.randrange(3)
    if how == 0:
        add(lambda o, k=k: o.initialize(k))
    elif how == 1:
        add(lambda o: o.initialize(edge_type=[1, 2]))
    else:
        add(lambda o: o.initialize(queues=[q.edge[2] for q in o.edge2queue if q.edge[3]]))
    for _ in range(m):
        k = rng.choice(['n', 'n', 'n', 't', 'init', 'start', 'stop', 'cleard', 'trans'])
        a = rng.choice([1, 2, 5, 12])
        add({'n': lambda o, a=a: o.simulate(n=a), 't': lambda o, a=a: o.simulate(t=a / 4.),
             'init': lambda o, a=a: o.initialize(a), 'start': lambda o: o.start_collecting_data(),
             'stop': lambda o, a=a: o.stop_collecting_data(edge_type=1), 'cleard': lambda o: o.clear_data(),
             'trans': lambda o: o.set_transitions(
                 {0: {e[1]: float(i == 0) for i, e in enumerate(sorted(o.g.out_edges(0)))}})}[k])
    return ops


def play(x, ops, first=True):
    out = [obs(x)] if first else []
    for f in ops:
        f(x)
        out.append(obs(x))
    return out


def _trace(a, b, clause):
    return {'cfg': {'a': a}, 'lines': [{'op': 'step', 'x': x, 'clause': clause, 'last': i == len(b) - 1}
                                       for i, x in enumerate(b)]}


@each
def twin_seed(qt, item):
    """Equal seeds, equal runs."""
    rng = random.Random(item)
    kind, build = make(qt, rng)
    ops = script(rng, kind, rng.randint(3, 12))
    seed = rng.randrange(10 ** 6)
    a = play(build(seed), ops)
    np.random.random(rng.randrange(9))
    b = play(build(seed), ops)
    return _trace(a, b, 'equal-seeds-differ')


@each
def twin_clear(qt, item):
    """After clear, the same as a new one."""
    rng = random.Random(item)
    kind, build = make(qt, rng)
    pre, ops = script(rng, kind, rng.randint(2, 8)), script(rng, kind, rng.randint(3, 12))
    # what clear keeps must be what the new one has
    x = build(rng.randrange(10 ** 6))
    was = [(q.num_servers, q.collect_data) for q in (x.edge2queue if kind == 'net' else [x])]
    tr = x.transitions() if kind == 'net' else None
    play(x, pre, False)
    for q, (s, c) in zip(x.edge2queue if kind == 'net' else [x], was):
        if hasattr(q, 'max_servers'):
            q.num_servers = s
        elif q.num_servers != s:
            q.set_num_servers(s)
        q.collect_data = c
    if kind == 'net':
        x.set_transitions(tr)
    x.clear()
    y = build(7)
    seed = rng.randrange(10 ** 6)
    np.random.seed(seed)
    b = play(x, ops)
    np.random.seed(seed)
    a = play(y, ops)
    return _trace(a, b, 'differs-from-a-new-one-after-clear')


@each
def twin_copy(qt, item):
    """A copy continues like the original, and neither shows in the other."""
    rng = random.Random(item)
    kind, build = make(qt, rng)
    x = build(rng.randrange(10 ** 6))
    play(x, script(rng, kind, rng.randint(0, 8)) if rng.random() < 0.9 else [], False)
    ops = script(rng, kind, rng.randint(3, 10))
    if rng.random() < 0.6:
        ops = ops[1:]
        if kind == 'net' and not x._initialized:
            x.initialize(1)
    before = obs(x)
    c = x.copy()
    st = np.random.get_state()
    order = rng.random() < 0.5
    first, second = (x, c) if order else (c, x)
    a = play(first, ops)
    mid = obs(second)
    np.random.set_state(st)
    b = play(second, ops)
    a = [before, before] + a + [a[-1]]
    b = [before, mid] + b + [obs(first)]
    return _trace(a, b, 'copy-differs')


@each
def twin_split(qt, item):
    """One call or several: the same events."""
    rng = random.Random(item)
    kind, build = make(qt, rng)
    seed = rng.randrange(10 ** 6)
    ops = script(rng, kind, rng.randint(0, 2))
    parts = [rng.choice([1, 1, 2, 3, 7, 20]) for _ in range(rng.randint(2, 6))]
    x = build(seed)
    play(x, ops, False)
    x.simulate(n=sum(parts))
    y = build(seed)
    play(y, ops, False)
    for p in parts:
        y.simulate(n=p)
    return _trace([obs(x)], [obs(y)], 'split-run-differs')


# ---- C29: conversions --------------------------------------------------------
@each
def convert(qt, item):
    import networkx as nx
    rng = random.Random(item)
    np.random.seed(rng.randrange(2 ** 31))
    lines = []
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(['todict', 'todict', 'back', 'lengths'])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8])
        E = sorted({(u, v) for u in range(n) for v in range(n) if rng.random() < rng.choice([.2, .5])})
        form = rng.choice(['digraph', 'graph', 'qn', 'matrix']) if op == 'todict' else \
            rng.choice(['digraph', 'qn'])
        ln = {'op': op, 'err': '', 'n': n, 'directed': form != 'graph', 'dd': rng.random() < 0.6, 'edges': [], 'out': [],
              'nodes': [], 'before': '', 'after': '', 'len': [], 'ang': [], 'same': []}
        if op == 'back':
            E = sorted(set(E) | {(v, rng.randrange(n)) for v in range(n) if v not in {e[0] for e in E}})
        elif form == 'graph':
            E = sorted({tuple(sorted(e)) for e in E})
        rng.shuffle(E)
        props = {e: {} for e in E}
        if op == 'back':
            props = {e: {'edge_type': rng.choice([1, 2, 3, 7])} for e in E}
        elif op == 'todict' and form != 'matrix':
            props = {e: {k: rng.randrange(5) for k in ('edge_type', 'w', 'x') if rng.random() < 0.4} for e in E}
        elif form == 'matrix':
            props = {e: {'weight': rng.choice([1, 2, 5])} for e in E}
        pos = [(rng.uniform(-1.5, 1.5), rng.uniform(-3, 3)) for _ in range(n)]
        if rng.random() < 0.5:      # some vertices at one place, some on one parallel
            pos = [pos[rng.randrange(v + 1)] if rng.random() < 0.3 else
                   (pos[0][0], p[1]) if rng.random() < .4 else p for v, p in enumerate(pos)]
        try:
            if form == 'matrix':
                g = np.zeros((n, n), int)
                for e in E:
                    g[e] = props[e]['weight']
                arg = g
            else:
                g = nx.Graph() if form == 'graph' else nx.DiGraph()
                g.add_nodes_from(range(n))
                g.add_edges_from((u, v, dict(props[u, v])) for u, v in E)
                if op == 'lengths':
                    nx.set_node_attributes(g, name='pos', values=dict(enumerate(pos)))
                arg = qt.QueueNetworkDiGraph(g) if form == 'qn' else g
            before = ops._fingerprint(g)
            es = [{'e': [e[0] + 1, e[1] + 1], 'p': _ps(props[e])} for e in E]
            if op == 'lengths':
                out = qt.add_edge_lengths(arg)
                E = list(out.edges())
                ln['edges'] = sorted(es, key=lambda x: x['e'])
                E = sorted(E)
                ln['out'] = [{'e': [e[0] + 1, e[1] + 1], 'p': []} for e in E]
                for e in E:
                    x = out.ep(e, 'edge_length')
                    ln['len'].append(int(round(float(x) * 1000)) if x is not None and np.isfinite(x) else -1)
                    ln['ang'].append(_angle(pos[e[0]], pos[e[1]]))
                    ln['same'].append(pos[e[0]] == pos[e[1]])
                ln['before'], ln['after'] = before, ops._fingerprint(g)
                if form == 'qn':
                    for e in E:
                        arg.adj[e[0]][e[1]].pop('edge_length', None)
                    ln['after'] = ops._fingerprint(nx.DiGraph(arg))
            elif op == 'todict':
                adj = qt.graph2dict(arg, return_dict_of_dict=ln['dd'])
                ln['edges'] = es
                ln['nodes'] = sorted(v + 1 for v in adj)
                ln['out'] = [{'e': [u + 1, v + 1], 'p': _ps(adj[u][v]) if ln['dd'] else []}
                             for u in adj for v in adj[u]]
                if not ln['dd'] and not all(isinstance(x, list) for x in adj.values()):
                    ln['err'] = 'not-lists'
                ln['before'], ln['after'] = before, ops._fingerprint(g)
            else:
                adj = qt.graph2dict(arg, ln['dd'])
                ln['edges'] = [{'e': x['e'], 'p': [props[x['e'][0] - 1, x['e'][1] - 1]['edge_type']]} for x in es]
                b = qt.adjacency2graph(adj, adjust=rng.choice([1, 2]))
                ln['nodes'] = sorted(v + 1 for v in b.nodes())
                ln['out'] = [{'e': [u + 1, v + 1], 'p': [d.get('edge_type', -1)]} for u, v, d in b.edges(data=True)]
                ln['before'], ln['after'] = before, ops._fingerprint(g)
        except Exception as ex:
            import driver
            if not driver.in_library(ex.__traceback__):
                raise
            ln['err'] = type(ex).__name__
        ln['before'], ln['after'] = [hashlib.sha256(x.encode()).hexdigest()[:16] for x in (ln['before'], ln['after'])]
        lines.append(ln)
    return {'cfg': {'x': 0}, 'lines': lines}


def _ps(d):
    return sorted('%s=%s' % (k, v) for k, v in d.items())


def _angle(p, q):
    """Angle between two points of a sphere, in millionths of a radian."""
    x, y = [(math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a)) for a, b in (p, q)]
    c = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    return int(round(1e6 * math.atan2(math.sqrt(sum(t * t for t in c)), sum(s * t for s, t in zip(x, y)))))
