"""Random scenarios on the real code, recorded as traces for TraceNet.

A profile is a dict of weights and switches; every check picks the profiles
that put its property under stress (see checks.py).
"""
import math
import random

import numpy as np

from recorder import INF, Tm, Trace, aid, make_agents, tm

inf = math.inf


class Times(object):
    """Positive increments, either continuous or on a coarse grid (many ties)."""

    def __init__(self, rng, grid, scale=1.0):
        self.rng, self.grid, self.scale = rng, grid, scale

    def __call__(self):
        if self.grid:
            return self.rng.choice([0.0, 0.5, 0.5, 0.5, 1.0, 1.0, 1.5, 2.0]) * max(self.scale, 0.5) \
                if self.scale != 1.0 else self.rng.choice([0.0, 0.5, 0.5, 0.5, 1.0, 1.0, 1.5, 2.0])
        return self.rng.expovariate(1.0 / self.scale) + 1e-4


def closures(trace, k, rng, grid, ascale, sscale):
    ta, ts = Times(rng, grid, ascale), Times(rng, grid, sscale)
    log = trace.log

    def arrival_f(t):
        out = float(t) + ta()
        log.add('arr', k, tm(t), tm(out))
        return out

    def service_f(t):
        out = float(t) + ts()
        log.add('svc', k, tm(t), tm(out))
        return out
    return arrival_f, service_f


def factory(trace, agents, aty, n, k, info_queue):
    cls = agents[aty]

    def make(agent_id, *args):
        trace.log.add('new', k, aid(agent_id))
        if aty == 'I':
            return cls(agent_id, args[0] if args else n)
        return cls(agent_id)
    return make


def spec_ty(aty):
    return aty


QCLS = {'Q': 'QueueServer', 'L': 'LossQueue', 'R': 'ResourceQueue', 'I': 'InfoQueue',
        'N': 'NullQueue'}


def pick(rng, table):
    """table: dict value -> weight (or list)."""
    if not isinstance(table, dict):
        return rng.choice(list(table))
    ks = sorted(table, key=str)
    return rng.choices(ks, [table[k] for k in ks])[0]


def queue_config(rng, p, cls):
    c = pick(rng, p.get('c', {1: 4, 2: 3, 3: 1}))
    if cls == 'Q' and rng.random() < p.get('c_inf', 0.05):
        c = INF
    if cls == 'L':
        buf = pick(rng, p.get('buf', {0: 3, 1: 2, 2: 1, INF: 1}))
    elif cls == 'R':
        buf = pick(rng, p.get('rbuf', p.get('buf', {0: 3, 1: 2, 3: 1})))
    elif cls == 'I':
        buf = pick(rng, p.get('ibuf', {INF: 3, 0: 1, 1: 1}))
    else:
        buf = INF
    cap = pick(rng, p.get('cap', {INF: 5, 3: 1, 6: 1, 1: 0.5, 0: 0.2}))
    dt = inf if rng.random() < p.get('dt_inf', 0.7) else rng.choice([2.0, 4.0, 5.5])
    aty = pick(rng, p.get('agents', {}).get(cls, {'Q': {'A': 1}, 'L': {'A': 1}, 'R': {'R': 3, 'A': 1},
                                                  'I': {'I': 3, 'A': 1}, 'N': {'A': 1}}[cls]))
    return {'cls': cls, 'c': c, 'buf': buf, 'cap': cap, 'dt': dt, 'aty': aty,
            'coll': rng.random() < p.get('coll', 0.6)}


def as_args(cfg):
    """Constructor keyword arguments of a queue configuration."""
    f = (lambda x: np.infty if x == INF else x)
    kw = {'num_servers': f(cfg['c']), 'active_cap': f(cfg['cap']), 'deactive_t': cfg['dt'],
          'collect_data': cfg['coll']}
    if cfg['cls'] in 'LRI':
        kw['qbuffer'] = f(cfg['buf'])
    return kw


# ---------------------------------------------------------------------------
def queue_trace(qt, seed, tid, p):
    """A stand-alone queue driven by random operations."""
    rng = random.Random(seed)
    np.random.seed(rng.randrange(2 ** 31))
    tr = Trace(qt, tid)
    agents = make_agents(qt, tr.log, None)
    cls = pick(rng, p.get('cls', {'Q': 3, 'L': 3, 'R': 1, 'I': 1}))
    grid = rng.random() < p.get('grid', 0.4)
    cfg = queue_config(rng, p, cls)
    eidx = rng.choice([0, 0, 0, 2]) if cls in 'QLR' else 0
    kw = as_args(cfg)
    load = rng.choice(p.get('load', [0.5, 1.0, 1.0, 2.0]))
    af, sf = closures(tr, 1, rng, grid, 1.0, load * min(cfg['c'], 3))
    kw.update(arrival_f=af, service_f=sf, AgentFactory=factory(tr, agents, cfg['aty'], 1, 1, cls == 'I'))
    if cls == 'I':
        kw['net_size'] = 1
    edge = (0, 0, 0, 1)
    q = getattr(qt, QCLS[cls])(edge=edge, **kw)
    spec = dict(cfg, aty=spec_ty(cfg['aty']), edge=[0, 0, 1])
    tr.start('queue', q, [spec], INF, True)
    ops = dict(p.get('ops', {}))
    base = {'set_active': 2, 'set_inactive': 0.5, 'set_servers': 1, 'next': 8, 'simn': 2, 'simt': 2,
            'simnD': 1, 'simnA': 1, 'delay': 1, 'clear': 0.3, 'coll': 0.6, 'copy': 0.3}
    base.update(ops)
    if cls == 'R' and cfg['cap'] == INF:
        base['simnD'] = 0
    n_lines = rng.randint(*p.get('lines', (15, 45)))
    tr.line(1, 'set_active', lambda o: o.set_active(), rows=True)
    if 'lead' in p:
        n0 = rng.choice(p['lead'])
        tr.line(1, 'sim', lambda o: o.simulate(n0), False, mode='n', n=n0)
    nxt = 2
    for _ in range(n_lines):
        if tr.failed:
            break
        i = rng.choice(sorted(tr.insts))
        op = 'set_servers' if _ == 0 and 'lead' in p else pick(rng, base)
        q = tr.insts[i]
        rows = rng.random() < p.get('rows', 0.5)
        if op == 'set_active':
            ok = tr.line(i, op, lambda o: o.set_active(), rows)
        elif op == 'set_inactive':
            ok = tr.line(i, op, lambda o: o.set_inactive(), rows)
        elif op == 'set_servers':
            n = rng.choice(p.get('srv', [1, 1, 2, 3, 4]) + ([INF] if cls in 'Q' else []))
            v = np.infty if n == INF else n
            ok = tr.line(i, op, lambda o: o.set_num_servers(v), rows, n=n)
        elif op == 'next':
            ok = tr.line(i, op, lambda o: o.next_event(), rows)
        elif op == 'simn':
            n = rng.choice(p.get('ns', [0, 1, 2, 3, 5]))
            if n == 1 and rng.random() < 0.5:
                ok = tr.line(i, 'sim', lambda o: o.simulate(), rows, mode='n', n=1)
            else:
                ok = tr.line(i, 'sim', lambda o: o.simulate(n), rows, mode='n', n=n)
        elif op == 'simt':
            d = rng.choice(p['ts'] if 'ts' in p else [0.0, 0.5, 1.0, 2.5] if grid else [0.0, 0.3, 1.1, 2.7])
            lim = float(q.current_time) + d
            ok = tr.line(i, 'sim', lambda o: o.simulate(t=d), rows, mode='t', n=tm(lim))
        elif op == 'simnD':
            n = rng.choice(p.get('ns', [0, 1, 2, 3]))
            ok = tr.line(i, 'sim', lambda o: o.simulate(nD=n), rows, mode='nD', n=n)
        elif op == 'simnA':
            n = rng.choice(p.get('ns', [0, 1, 2, 3]))
            ok = tr.line(i, 'sim', lambda o: o.simulate(nA=n), rows, mode='nA', n=n)
        elif op == 'delay':
            if rng.random() < 0.5:
                ok = tr.line(i, op, lambda o: o.delay_service(), rows, n=-1)
            else:
                t = float(q.current_time) + (rng.choice([0.5, 1.0, 2.0]) if grid
                                             else rng.expovariate(0.7) + 1e-3)
                ok = tr.line(i, op, lambda o: o.delay_service(t), rows, n=tm(t))
        elif op == 'clear':
            ok = tr.line(i, op, lambda o: o.clear(), rows)
            if ok and rng.random() < 0.8:
                ok = tr.line(i, 'set_active', lambda o: o.set_active(), rows)
        elif op == 'bad':
            if cls == 'R':
                continue
            v, mode, n = rng.choice([(0, 'servers-integer', 0), (-1, 'servers-integer', -1),
                                     (np.int64(-3), 'servers-integer', -3), (2.5, 'servers-other', 0),
                                     ('3', 'servers-other', 0), (None, 'servers-other', 0),
                                     (1.0, 'servers-other', 0), (-np.infty, 'servers-other', 0)])
            tr.line(i, op, lambda o: o.set_num_servers(v), rows, mode=mode, n=n, want='?')
            ok = not tr.failed
        elif op == 'coll':
            b = rng.random() < 0.5
            ok = tr.line(i, op, lambda o: setattr(o, 'collect_data', b), rows, b=b)
        elif op == 'copy':
            if len(tr.insts) >= 3:
                continue
            ok = tr.line(i, op, lambda o: o.copy(), rows, new=nxt)
            nxt += 1
        if not ok:
            break
    tr.line(1, 'nop', lambda o: None, True)
    return tr


def bad_request(rng, tr, i, o, rows, gets):
    """A request a network must reject."""
    kind = rng.choice(['blocking', 'blocking', 'trans-other', 'trans', 'trans', 'trans', 'animate'])
    if kind == 'blocking':
        v = rng.choice([1, None, True, ['RS'], b'RS', 0.0])
        tr.line(i, 'bad', lambda o: setattr(o, 'blocking', v), rows, gets, mode='blocking-other', want='?')
    elif kind == 'trans-other':
        v = rng.choice([1, 'x', None, [[1.0]], [(0, {0: 1.0})]])
        tr.line(i, 'bad', lambda o: o.set_transitions(v), rows, gets, mode='transitions-other', want='?')
    elif kind == 'trans':
        e = rng.choice([x for x in o.g.edges() if o.g.out_degree(x[0]) > 0])
        n = o.nV
        form = rng.randrange(5)
        if form == 0:
            v = {e[0]: {e[1]: rng.choice([0.5, 1.5, 0.0, 2])}}
        elif form == 1:
            v = {rng.choice([n, n + 3, -1]): {0: 1.0}}
        elif form == 2:
            v = {e[0]: {e[1]: -0.5, n + 5: 1.5}}
        elif form == 3:
            v = rng.choice([np.zeros((n, n)), np.ones((n, n + 1)) / (n + 1), np.ones(n)])
        else:
            v = {e[0]: {n + 7: 1.0}}
        tr.line(i, 'bad', lambda o: o.set_transitions(v), rows, gets, mode='transitions-invalid', want='?')
    else:
        ini = [x for x in tr.lines if x['i'] == i and x['op'] in ('clear', 'init')]
        if not ini or ini[-1]['op'] != 'clear':
            return True
        tr.line(i, 'bad', lambda o: o.animate(), rows, gets, mode='animate', want='?')
    return not tr.failed


# ---------------------------------------------------------------------------
def random_shape(rng, p):
    """Vertices, edges {(s, t): type} for a network; every vertex entered by a
    non-terminal edge has an out-edge."""
    shapes = p.get('shapes', {'random': 5, 'line': 1, 'ring': 1, 'loops': 1, 'star': 1})
    shape = pick(rng, shapes)
    types = p.get('types', [1, 2])
    ty = lambda: rng.choice(types)
    E = {}
    if shape == 'line':
        n = rng.randint(3, 4)
        for v in range(n - 2):
            E[(v, v + 1)] = ty()
        E[(n - 2, n - 1)] = 0
    elif shape == 'ring':
        n = rng.randint(2, 4)
        for v in range(n):
            E[(v, (v + 1) % n)] = ty()
        if rng.random() < 0.5:
            E[(0, n)] = 0
    elif shape == 'loops':
        n = rng.randint(1, 3)
        for v in range(n):
            E[(v, v)] = ty()
            if v + 1 < n:
                E[(v, v + 1)] = ty()
        E[(n - 1, n)] = 0
    elif shape == 'big':
        n = rng.randint(7, 12)
        for v in range(n):
            for u in rng.sample(range(n), rng.randint(1, 4)):
                E[(v, u)] = ty()
        for v in rng.sample(range(n), rng.randint(0, 2)):
            E[(v, n)] = 0
        if not any(e[1] == n for e in E):
            E[(0, n)] = 0
    elif shape == 'star':
        m = rng.randint(2, 4)
        for v in range(1, m + 1):
            E[(0, v)] = ty()
            E[(v, m + 1)] = rng.choice([0, 0, ty()])
        E[(m + 1, 0)] = ty() if rng.random() < 0.6 else 0
    else:
        n = rng.randint(2, 4)
        for v in range(n):
            for u in rng.sample(range(n), rng.randint(1, min(n, 2))):
                E[(v, u)] = ty()
        if rng.random() < 0.8:
            for v in rng.sample(range(n), rng.randint(1, 2 if n > 1 else 1)):
                E[(v, n)] = 0
    # terminal: a target without out-edges must be entered by type 0 edges,
    # and a type 0 edge may lead anywhere (its agents are gone)
    srcs = {e[0] for e in E}
    for e in list(E):
        if e[1] not in srcs:
            E[e] = 0
    if rng.random() < 0.5:       # rename the vertices so that orders vary
        vs = sorted({v for e in E for v in e})
        perm = vs[:]
        rng.shuffle(perm)
        ren = dict(zip(vs, perm))
        E = {(ren[s], ren[t]): y for (s, t), y in E.items()}
    if not any(y for y in E.values()):
        s = sorted(E)[0][0]
        E[(s, s)] = ty()
    return E


def build_graph(qt, rng, E):
    return _nx(qt, E) if rng.randrange(3) < 2 else _qn(qt, E)


def _nx(qt, E):
    import networkx as nx
    g = nx.DiGraph()
    g.add_nodes_from(sorted({v for e in E for v in e}))
    for (s, t), y in sorted(E.items()):
        g.add_edge(s, t, edge_type=y)
    return g


def _qn(qt, E):
    return qt.QueueNetworkDiGraph(_nx(qt, E))


def selection(rng, E, k_all):
    """A random selection: (spec form, keyword arguments)."""
    kind = rng.choice(['all', 'q', 'q', 'e', 'e', 'ty', 'ty'])
    n = len(k_all)
    if kind == 'all':
        return {'kind': 'all', 'v': [], 'n': 0, 'err': ''}, {}
    if kind == 'q':
        if rng.random() < 0.4:
            v = rng.randrange(n)
            return {'kind': 'q', 'v': [v + 1], 'n': 0, 'err': ''}, {'queues': v}
        v = rng.sample(range(n), rng.randint(1, n))
        form = rng.choice([list, tuple, lambda x: np.array(x), set])
        return {'kind': 'q', 'v': [x + 1 for x in v], 'n': 0, 'err': ''}, {'queues': form(v)}
    if kind == 'e':
        es = [k_all[i] for i in rng.sample(range(n), rng.randint(1, n))]
        if rng.random() < 0.4:
            e = es[0]
            form = rng.choice([tuple, tuple, list])
            return {'kind': 'e', 'v': [list(e)], 'n': 0, 'err': ''}, {'edge': form(e)}
        form = rng.choice(['ll', 'lt', 'tt', 'np'])
        v = {'ll': [list(e) for e in es], 'lt': [tuple(e) for e in es],
             'tt': tuple(tuple(e) for e in es), 'np': np.array(es)}[form]
        return {'kind': 'e', 'v': [list(e) for e in es], 'n': 0, 'err': ''}, {'edge': v}
    tys = sorted(set(E.values()))
    if rng.random() < 0.5:
        y = rng.choice(tys)
        return {'kind': 'ty', 'v': [y], 'n': 0, 'err': ''}, {'edge_type': y}
    v = rng.sample(tys, rng.randint(1, len(tys)))
    form = rng.choice([list, tuple, set])
    return {'kind': 'ty', 'v': v, 'n': 0, 'err': ''}, {'edge_type': form(v)}


def net_trace(qt, seed, tid, p):
    """A network driven by random operations."""
    rng = random.Random(seed)
    np.random.seed(rng.randrange(2 ** 31))
    tr = Trace(qt, tid)

    def choose(network, edge, agent):
        return rng.choice(network.out_edges[edge[1]])
    agents = make_agents(qt, tr.log, choose)
    E = random_shape(rng, p)
    edges = sorted(E)
    nE = len(edges)
    grid = rng.random() < p.get('grid', 0.4)
    bas = rng.random() < p.get('bas', 0.5)
    classes, args, cfgs = {0: qt.NullQueue}, {0: {}}, {}
    for y in sorted(set(E.values())):
        if y == 0:
            cfgs[0] = {'cls': 'N', 'c': 1, 'buf': 0, 'cap': INF, 'dt': inf, 'aty': 'A',
                       'coll': rng.random() < p.get('coll', 0.6)}
            args[0]['collect_data'] = cfgs[0]['coll']
            continue
        cls = pick(rng, p.get('cls', {'Q': 2, 'L': 4}))
        cfgs[y] = queue_config(rng, p, cls)
        classes[y] = getattr(qt, QCLS[cls])
        args[y] = as_args(cfgs[y])
        if cls == 'I':
            args[y]['net_size'] = nE
    load = rng.choice(p.get('load', [0.5, 1.0, 2.0]))
    blocking = rng.choice(['BAS', 'bas', 'other']) if bas else rng.choice(['RS', 'rs', 'rS'])
    maxa = pick(rng, p.get('maxa', {INF: 3, 1000: 2, 2: 1, 3: 1, 5: 1}))
    tr.log.on = False
    # functions and factories need to know their queue, so they are put on the
    # queues after construction (documented, assignable attributes)
    g = _nx(qt, E) if rng.random() < 0.5 else _qn(qt, E)
    net = qt.QueueNetwork(g, q_classes=classes, q_args=args, blocking=blocking,
                          max_agents=np.infty if maxa == INF else maxa)
    tr.log.on = True
    spec = []
    for k, q in enumerate(net.edge2queue):
        y = E[edges[k]]
        cfg = dict(cfgs[y])
        if y:
            aty = cfg['aty']
            if rng.random() < p.get('mix', 0.2):
                aty = pick(rng, p.get('mixed', {'A': 1, 'D': 1, 'G': 1}))
            af, sf = closures(tr, k + 1, rng, grid, p.get('ascale', 1.0) * rng.choice([1.0, 2.0]),
                              load * min(cfg['c'], 2))
            q.arrival_f, q.service_f = af, sf
            q.AgentFactory = factory(tr, agents, aty, nE, k + 1, cfg['cls'] == 'I')
            cfg['aty'] = spec_ty(aty)
        cfg['edge'] = [edges[k][0], edges[k][1], y]
        spec.append(cfg)
    tr.start('net', net, spec, maxa, bas)
    fuzzy = bas and any(c['cls'] in 'LRI' and c['buf'] != INF for c in cfgs.values())
    base = {'sim1': 12, 'simn': 0 if fuzzy else 2, 'simt': 0 if fuzzy else 2, 'init': 0.5, 'coll': 0.5,
            'cleardata': 0.2, 'clear': 0.15, 'copy': 0.15, 'maxa': 0, 'bas': 0.2, 'nsrv': 0.5, 'route': 0.3}
    base.update(p.get('ops', {}))
    if fuzzy:
        base['simn'] = base['simt'] = 0
    nonterm = [k for k, e in enumerate(edges) if E[e] != 0]

    def fetch(f, kw):
        return f(**kw) if rng.random() < 0.7 else tr.headed(f(return_header=True, **kw))

    def gets(o):
        out = []
        if rng.random() < p.get('get', 0.3):
            sel, kw = selection(rng, E, edges)
            out.append({'what': 'queue', 'sel': sel, 'rows': tr.rows(fetch(o.get_queue_data, kw)),
                        'agents': []})
        if rng.random() < p.get('get', 0.3):
            sel, kw = selection(rng, E, edges)
            d = fetch(o.get_agent_data, kw)
            out.append({'what': 'agent', 'sel': sel, 'rows': [],
                        'agents': [{'a': aid(a), 'rows': tr.rows(d[a])} for a in sorted(d)]})
        return out

    def init(i, rows):
        mode = rng.random()
        if mode < p.get('init_n', 0.35):
            n = rng.choice(p.get('inits', [1, 1, 2, nE, nE + 3, 0, -1, 1.5, np.int64(2)]))
            err = 'TypeError' if isinstance(n, float) else 'ValueError' if n < 1 else ''
            sel = {'kind': 'n', 'v': [], 'n': int(n), 'err': err}
            if n == 1 and rng.random() < 0.5:
                return tr.line(i, 'init', lambda o: o.initialize(), rows, gets, sel=sel, want=err)
            return tr.line(i, 'init', lambda o: o.initialize(n), rows, gets, sel=sel, want=err)
        sel, kw = selection(rng, E, edges)
        if not kw:
            sel, kw = {'kind': 'q', 'v': [k + 1 for k in nonterm], 'n': 0, 'err': ''}, {'queues': nonterm}
        if 'edge' in kw:
            kw = {'edges': kw['edge']}
        return tr.line(i, 'init', lambda o: o.initialize(**kw), rows, gets, sel=sel, want='?')

    if rng.random() < 0.2:
        tr.line(1, 'nsim', lambda o: o.simulate(3), False, mode='n', n=3, want='?')
    init(1, True)
    nxt = 2
    n_lines = rng.randint(*p.get('lines', (20, 60)))
    for _ in range(n_lines):
        if tr.failed:
            break
        i = rng.choice(sorted(tr.insts))
        o = tr.insts[i]
        op = pick(rng, base)
        rows = rng.random() < p.get('rows', 0.3)
        if op == 'sim1':
            ok = tr.line(i, 'nsim', (lambda o: o.simulate()) if rng.random() < .5 else
                         (lambda o: o.simulate(n=1)), rows, gets, mode='n', n=1, want='?')
        elif op == 'simn':
            n = rng.choice(p.get('ns', [0, 2, 3, 5]))
            ok = tr.line(i, 'nsim', lambda o: o.simulate(n), rows, gets, mode='n', n=n, want='?')
        elif op == 'simt':
            d = rng.choice([0.0, 0.5, 1.0, 2.0]) if grid else rng.choice([0.0, 0.3, 1.1, 2.7])
            lim = float(o.current_time) + d
            ok = tr.line(i, 'nsim', lambda o: o.simulate(t=d), rows, gets, mode='t', n=tm(lim), want='?')
        elif op == 'init':
            ok = init(i, rows)
        elif op in ('coll', 'cleardata'):
            sel, kw = selection(rng, E, edges)
            if op == 'coll':
                b = rng.random() < 0.6
                f = (lambda o: o.start_collecting_data(**kw)) if b else \
                    (lambda o: o.stop_collecting_data(**kw))
                ok = tr.line(i, op, f, rows, gets, sel=sel, b=b)
            else:
                ok = tr.line(i, op, lambda o: o.clear_data(**kw), rows, gets, sel=sel)
        elif op == 'clear':
            ok = tr.line(i, op, lambda o: o.clear(), rows, gets)
            if ok and rng.random() < p.get('reinit', 0.85):
                ok = init(i, rows)
        elif op == 'copy':
            if len(tr.insts) >= 3:
                continue
            ok = tr.line(i, op, lambda o: o.copy(), rows, gets, new=nxt)
            nxt += 1
        elif op == 'maxa':
            n = rng.choice([2, 3, 4, 6, INF])
            ok = tr.line(i, op, lambda o: setattr(o, 'max_agents', np.infty if n == INF else n),
                         rows, gets, n=n)
        elif op == 'route':
            v = rng.choice(sorted({e[0] for e in edges}))
            outs = [k for k, e in enumerate(edges) if e[0] == v]
            on = sorted(rng.sample(outs, rng.randint(1, len(outs))))
            if rng.random() < 0.3:
                on = outs
            w = [rng.choice([1, 1, 2, 5]) for _ in on]
            row = {edges[k][1]: x / float(sum(w)) for k, x in zip(on, w)}
            if rng.random() < 0.5:
                f = lambda o: o.set_transitions({v: row})
            else:
                mat = np.array(o.transitions())
                mat[v] = 0
                for t in row:
                    mat[v, t] = row[t]
                f = lambda o: o.set_transitions(mat)
            ok = tr.line(i, op, f, rows, gets, n=v, on=[k + 1 for k in on])
        elif op == 'nsrv':
            # (a change that starts services is for stand-alone queues)
            k = rng.choice(nonterm)
            q = o.edge2queue[k]
            if spec[k]['cls'] not in ('Q', 'L', 'I'):
                continue
            n = rng.choice([1, 1, 2, 3, 4] + ([INF] if spec[k]['cls'] == 'Q' else []))
            wait = int(q.number_queued())
            if wait and n > int(q.num_system) - wait:
                continue
            v = np.infty if n == INF else n
            ok = tr.line(i, 'set_servers', lambda o: o.edge2queue[k].set_num_servers(v), rows, gets,
                         k=k + 1, n=n)
        elif op == 'bas':
            if fuzzy:
                continue
            if bas and any(c['cls'] in 'LRI' and c['buf'] != INF for c in cfgs.values()):
                continue
            b = False
            ok = tr.line(i, op, lambda o: setattr(o, 'blocking', rng.choice(['RS', 'rs'])), rows, gets, b=b)
        elif op == 'bad':
            ok = bad_request(rng, tr, i, o, rows, gets)
        if tr.failed:
            break
        if not ok and tr.lines[-1]['want'] == '':
            break
    tr.line(1, 'nop', lambda o: None, True, gets)
    return tr
