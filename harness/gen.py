"""Replays behaviours generated from spec/MCNet.tla on the real code: the same
calls, with the environment returning the values of the behaviour.  What
happens is recorded as a trace (and validated like any other)."""
import math
import random

import numpy as np

from recorder import INF, Trace, aid, make_agents, tm
from scen import QCLS, as_args, factory

TICK = 10.0


class Script(object):
    """The values of one kind, per queue, in order; then a default."""

    def __init__(self, kind, steps):
        self.left = {}
        for st in steps:
            for x, k, t, v in st['d']:
                if x == kind:
                    self.left.setdefault(k, []).append(v if kind == 'dst' else (v - t) / TICK)

    def take(self, k, default):
        left = self.left.get(k)
        return left.pop(0) if left else default


def _functions(tr, k, arr, svc):
    log = tr.log

    def arrival_f(t):
        out = float(t) + arr.take(k, 1.0)
        log.add('arr', k, tm(t), tm(out))
        return out

    def service_f(t):
        out = float(t) + svc.take(k, 2.0)
        log.add('svc', k, tm(t), tm(out))
        return out
    return arrival_f, service_f


def replay(qt, id, item):
    import networkx as nx
    np.random.seed(7)
    cfg, steps = item['cfg'], item['hist']
    arr, svc, dst = (Script(x, steps) for x in ('arr', 'svc', 'dst'))
    tr = Trace(qt, id)

    def choose(network, edge, agent):
        outs = network.out_edges[edge[1]]
        d = dst.take(edge[2] + 1, 0) - 1
        return d if d in outs else outs[0]
    agents = make_agents(qt, tr.log, choose)
    n = len(cfg['qs'])
    specs = []
    for k, q in enumerate(cfg['qs']):
        c = {x: q[x] for x in ('cls', 'c', 'buf', 'cap', 'coll')}
        c['dt'] = math.inf if q['dt'] == INF else q['dt'] / TICK
        c['aty'] = q['aty']
        c['edge'] = [q['edge'][0], q['edge'][1], 0 if q['cls'] == 'N' else k + 1]
        specs.append(c)
    if cfg['kind'] == 'queue':
        c = specs[0]
        c['edge'] = [0, 0, 1]
        kw = as_args(c)
        kw['arrival_f'], kw['service_f'] = _functions(tr, 1, arr, svc)
        kw['AgentFactory'] = factory(tr, agents, c['aty'], 1, 1, c['cls'] == 'I')
        if c['cls'] == 'I':
            kw['net_size'] = 1
        obj = getattr(qt, QCLS[c['cls']])(edge=(0, 0, 0, 1), **kw)
    else:
        g = nx.DiGraph()
        g.add_nodes_from(sorted({v for c in specs for v in c['edge'][:2]}))
        classes, args = {0: qt.NullQueue}, {}
        for k, c in enumerate(specs):
            y = c['edge'][2]
            g.add_edge(c['edge'][0], c['edge'][1], edge_type=y)
            if y:
                classes[y] = getattr(qt, QCLS[c['cls']])
                args[y] = as_args(c)
                if c['cls'] == 'I':
                    args[y]['net_size'] = n
            else:
                args[0] = {'collect_data': c['coll']}
        tr.log.on = False
        obj = qt.QueueNetwork(g, q_classes=classes, q_args=args, blocking='BAS' if cfg['bas'] else 'RS',
                              max_agents=np.infty if cfg['maxa'] == INF else cfg['maxa'])
        tr.log.on = True
        for k, c in enumerate(specs):
            if c['edge'][2]:
                q = obj.edge2queue[k]
                q.arrival_f, q.service_f = _functions(tr, k + 1, arr, svc)
                q.AgentFactory = factory(tr, agents, c['aty'], n, k + 1, c['cls'] == 'I')
    tr.start(cfg['kind'], obj, specs, cfg['maxa'], cfg['bas'])
    edges = [c['edge'] for c in specs]
    for st in steps:
        if not _call(tr, cfg['kind'], edges, st['o']):
            break
    tr.line(1, 'nop', lambda o: None, True)
    return tr


def _call(tr, kind, edges, o):
    op, k, n, ks = o['o'], o['k'], o['n'], sorted(o['ks'])
    net = kind == 'net'
    rows = True
    sel = {'kind': 'q', 'v': ks, 'n': 0, 'err': ''}
    ks0 = [x - 1 for x in ks]
    if op == 'act':
        return tr.line(1, 'set_active', lambda x: x.set_active(), rows)
    if op == 'inact':
        return tr.line(1, 'set_inactive', lambda x: x.set_inactive(), rows)
    if op == 'srv':
        v = np.infty if n == INF else n
        if net:
            return tr.line(1, 'set_servers', lambda x: x.edge2queue[k - 1].set_num_servers(v), rows, k=k, n=n)
        return tr.line(1, 'set_servers', lambda x: x.set_num_servers(v), rows, n=n)
    if op == 'next':
        return tr.line(1, 'next', lambda x: x.next_event(), rows)
    if op == 'delay':
        if n == -1:
            return tr.line(1, 'delay', lambda x: x.delay_service(), rows, n=-1)
        t = float(tr.insts[1].current_time) + n
        return tr.line(1, 'delay', lambda x: x.delay_service(t), rows, n=tm(t))
    if op == 'clear':
        return tr.line(1, 'clear', lambda x: x.clear(), rows)
    if op == 'coll':
        b = o['b']
        if not net:
            return tr.line(1, 'coll', lambda x: setattr(x, 'collect_data', b), rows, b=b)
        f = (lambda x: x.start_collecting_data(queues=ks0)) if b else (lambda x: x.stop_collecting_data(queues=ks0))
        return tr.line(1, 'coll', f, rows, sel=sel, b=b)
    if op == 'cleardata':
        return tr.line(1, 'cleardata', lambda x: x.clear_data(queues=ks0), rows, sel=sel)
    if op == 'sim':
        m = o['mode']
        if m == 't':
            lim = float(tr.insts[1].current_time) + n
            return tr.line(1, 'sim', lambda x: x.simulate(t=n), rows, mode='t', n=tm(lim))
        f = {'n': lambda x: x.simulate(n), 'nD': lambda x: x.simulate(nD=n), 'nA': lambda x: x.simulate(nA=n)}[m]
        return tr.line(1, 'sim', f, rows, mode=m, n=n)
    if op == 'nsim':
        if o['mode'] == 't':
            lim = float(tr.insts[1].current_time) + n
            return tr.line(1, 'nsim', lambda x: x.simulate(t=n), rows, mode='t', n=tm(lim), want='?')
        return tr.line(1, 'nsim', lambda x: x.simulate(n=n), rows, mode='n', n=n, want='?')
    if op == 'init':
        return tr.line(1, 'init', lambda x: x.initialize(queues=ks0), rows, sel=sel, want='?')
    if op == 'initn':
        return tr.line(1, 'init', lambda x: x.initialize(n), rows,
                       sel={'kind': 'n', 'v': [], 'n': n, 'err': ''}, want='?')
    if op == 'route':
        row = {edges[j - 1][1]: 1.0 / len(ks) for j in ks}
        return tr.line(1, 'route', lambda x: x.set_transitions({n: row}), rows, n=n, on=ks)
    raise ValueError(op)
