"""More jobs (see ops.py): generators, drawing, thinning, requests, twins."""
import copy
import hashlib
import math
import random
from fractions import Fraction

import numpy as np

import ops
from ops import INF, _plain_net, each, next_draws, text


# ---- C23: generators -----------------------------------------------------
def _edges1(g):
    return [[int(e[0]) + 1, int(e[1]) + 1] for e in g.edges()]


def _gobs(g, typed):
    return {'nodes': [int(v) + 1 for v in g.nodes()], 'edges': _edges1(g),
            'types': [{'e': [int(e[0]) + 1, int(e[1]) + 1], 'ty': int(g.ep(e, 'edge_type'))} for e in g.edges()]
            if typed else [],
            'npos': sum(g.vp(v, 'pos') is not None for v in g.nodes())}


def _ranks(g, n):
    pos = {v: [Fraction(float(x)) for x in g.vp(v, 'pos')] for v in range(n)}
    d = {(u, v): sum((a - b) ** 2 for a, b in zip(pos[u], pos[v])) for u in range(n) for v in range(u)}
    order = {x: i + 1 for i, x in enumerate(sorted(set(d.values())))}
    return [[order[d[(max(u, v), min(u, v))]] if u != v else 0 for v in range(n)] for u in range(n)]


def _fp(g):
    return repr((sorted((v, sorted((k, str(x)) for k, x in d.items())) for v, d in g.nodes(data=True)),
                 sorted((e, sorted((k, str(x)) for k, x in d.items())) for e, d in
                        ((x[:2], x[2]) for x in g.edges(data=True)))))


def _props(rng, zero=True):
    ks = rng.sample([0, 1, 2, 3, 4, 5], rng.randint(1, 4))
    cut = sorted(rng.randrange(65) for _ in range(len(ks) - 1))
    w = [b - a for a, b in zip([0] + cut, cut + [64])]
    return ks, w


def _small(qt, rng, n):
    import networkx as nx
    E = sorted({(u, v) for u in range(n) for v in range(n) if rng.random() < 0.4} |
               {(v, (v + 1) % n) for v in range(n - 1)})
    g = nx.DiGraph()
    g.add_nodes_from(range(n))
    g.add_edges_from(E)
    return g, E


@each
def generators(qt, item):
    rng = random.Random(item)
    np.random.seed(rng.randrange(2 ** 31))
    lines = []
    for _ in range(rng.randint(2, 4)):
        kind = rng.choice(['minimal', 'minimal', 'random', 'random', 'types', 'types', 'ranktypes', 'ranktypes',
                           'matrix', 'same'])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
        ln = {'op': kind, 'err': '', 'want': '', 'n': n, 'rank': [], 'o': {}, 'before': [], 'props': [],
              'lprops': [], 'ploop': 0, 'rnk': [], 'k2': 0, 'k3': 0, 'eps': 0, 'near': False, 'sg': [], 'dev': [],
              'a': '', 'b': ''}
        seed = rng.randrange(10 ** 6)
        kw = {'seed': seed} if rng.random() < 0.5 else {}
        try:
            if kind == 'minimal':
                g = qt.minimal_random_graph(n, **kw)
                ln['o'], ln['rank'] = _gobs(g, False), _ranks(g, n)
            elif kind == 'random':
                ks, w = _props(rng)
                lks, lw = _props(rng)
                ln['ploop'] = rng.choice([0, 32, 64])
                g = qt.generate_random_graph(n, prob_loop=ln['ploop'] / 64., proportions=_d(ks, w),
                                             loop_proportions=_d(lks, lw), **kw)
                ln['props'], ln['lprops'] = _pos(ks, w), _pos(lks, lw)
                ln['o'], ln['rank'] = _gobs(g, True), _ranks(g, n)
            elif kind == 'types':
                g0, E = _small(qt, rng, n)
                ks, w = _props(rng)
                lks, lw = _props(rng)
                ln['props'], ln['lprops'] = _pos(ks, w), _pos(lks, lw)
                args = {'proportions': _d(ks, w), 'loop_proportions': _d(lks, lw)}
                if rng.random() < 0.2:
                    args.pop('proportions')
                    ln['props'] = [1, 2, 3]
                if rng.random() < 0.2:
                    args.pop('loop_proportions')
                    ln['lprops'] = [0, 1, 2, 3]
                if rng.random() < 0.15:
                    args['proportions'] = {1: 0.5, 2: 0.25}
                    ln['want'] = 'ValueError'
                ln['before'] = [[e[0] + 1, e[1] + 1] for e in E]
                if rng.random() < 0.5:
                    g0 = qt.QueueNetworkDiGraph(g0)
                g = qt.set_types_random(g0, **dict(kw, **args))
                ln['o'] = _gobs(g, True)
            elif kind == 'ranktypes':
                g0, E = _small(qt, rng, n)
                p2, p3 = rng.choice([1, 2, 4, 8]), rng.choice([0, 1, 2, 4])
                ln['near'] = rng.random() < 0.5
                g = qt.QueueNetworkDiGraph(g0)
                s = 1 if ln['near'] else 10
                g.set_pos({v: np.array([rng.random() * s, rng.random() * s]) for v in range(n)})
                rnk = [rng.randrange(6) if rng.random() < 0.3 else rng.randrange(10 ** 6) for _ in range(n)]
                ln['rnk'], ln['k2'], ln['k3'] = rnk, -(-n * p2 // 8), n * p3 // 8
                ln['before'] = [[e[0] + 1, e[1] + 1] for e in E]
                g = qt.set_types_rank(g, rank=np.array(rnk, float), pType2=p2 / 8., pType3=p3 / 8., **kw)
                ln['o'] = _gobs(g, True)
            elif kind == 'matrix':
                g0, E = _small(qt, rng, n)
                if rng.random() < 0.3:
                    g0 = {v: [e[1] for e in E if e[0] == v] for v in range(n)}
                    g0 = {v: g0[v] for v in g0 if g0[v]} or {0: [0]}
                    E = sorted((v, u) for v in g0 for u in g0[v])
                    term = sorted({u for _, u in E} - set(g0))
                    E = sorted(E + [(v, v) for v in term])
                    n = ln['n'] = len({x for e in E for x in e})
                    if {x for e in E for x in e} != set(range(n)):
                        continue
                mat = qt.generate_transition_matrix(g0, **kw)
                ln['o'] = {'nodes': [], 'edges': [[e[0] + 1, e[1] + 1] for e in E], 'types': [], 'npos': 0}
                ln['sg'] = [[int(np.sign(x)) for x in row] for row in mat]
                ln['dev'] = [int(np.clip(round((float(np.sum(row)) - 1) * 1e9), -10 ** 9, 10 ** 9)) for row in mat]
            else:
                which = rng.randrange(5)
                g0, E = _small(qt, rng, n)

                def one():
                    if which == 0:
                        return _fp(qt.minimal_random_graph(n, seed=seed))
                    if which == 1:
                        return _fp(qt.generate_random_graph(n, prob_loop=0.5, seed=seed))
                    if which == 2:
                        return repr(qt.generate_transition_matrix(g0, seed=seed).tolist())
                    if which == 3:
                        return _fp(qt.set_types_random(qt.QueueNetworkDiGraph(g0), seed=seed))
                    g = qt.QueueNetworkDiGraph(g0)
                    g.set_pos({v: np.array([v * .01, v * v * .02]) for v in range(n)})
                    return _fp(qt.set_types_rank(g, rank=np.arange(n), pType2=0.25, pType3=0.25, seed=seed))
                a = one()
                np.random.random(rng.randrange(5))
                b = one()
                ln['a'], ln['b'] = [hashlib.sha256(x.encode()).hexdigest()[:16] for x in (a, b)]
        except Exception as ex:
            import driver
            if not driver.in_library(ex.__traceback__):
                raise
            ln['err'] = type(ex).__name__
        lines.append(ln)
    return {'cfg': {'x': 0}, 'lines': lines}


def _d(ks, w):
    return {k: x / 64. for k, x in zip(ks, w)}


def _pos(ks, w):
    return [k for k, x in zip(ks, w) if x]


@each
def typefreq(qt, item, m=60):
    """Frequencies of edge types, loops, over many seeds."""
    rng = random.Random(item)
    np.random.seed(rng.randrange(2 ** 31))
    ks, w = _props(rng)
    lks, lw = _props(rng)
    cnt, lcnt, ne, nl = {}, {}, 0, 0
    loops = 0
    n = 10
    ploop = rng.choice([16, 32, 48])
    for i in range(m):
        g = qt.generate_random_graph(n, prob_loop=ploop / 64., proportions=_d(ks, w), loop_proportions=_d(lks, lw))
        for e in g.edges():
            y = int(g.ep(e, 'edge_type'))
            if e[0] == e[1]:
                lcnt[y] = lcnt.get(y, 0) + 1
                nl += 1
            else:
                cnt[y] = cnt.get(y, 0) + 1
                ne += 1
    lines = [{'op': 'freq', 'err': '', 'want': '', 'what': 'edges', 'cnt': cnt.get(k, 0), 'm': ne, 'p': x}
             for k, x in zip(ks, w)]
    lines += [{'op': 'freq', 'err': '', 'want': '', 'what': 'loop-types', 'cnt': lcnt.get(k, 0), 'm': nl, 'p': x}
              for k, x in zip(lks, lw)]
    lines.append({'op': 'freq', 'err': '', 'want': '', 'what': 'loops', 'cnt': nl, 'm': n * m, 'p': ploop})
    return {'cfg': {'x': 0}, 'lines': lines}


@each
def pagerank(qt, item):
    import warnings
    import networkx as nx
    rng = random.Random(item)
    n = rng.choice([3, 5, 8, 12])
    p2, p3 = rng.choice([1, 2, 4]), rng.choice([0, 1, 2, 4])
    seed = rng.randrange(10 ** 6)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = qt.generate_pagerank_graph(n, pType2=p2 / 8., pType3=p3 / 8., seed=seed)
        m = qt.minimal_random_graph(n, seed=seed)
        pr = nx.pagerank_numpy(m)
    if not all(np.allclose(g.vp(v, 'pos'), m.vp(v, 'pos')) for v in range(n)):
        m = None
    base = _edges1(m) if m is not None else [e for e in _edges1(g) if e[0] != e[1]]
    ln = {'op': 'ranktypes', 'err': '', 'want': '', 'n': n, 'before': base, 'o': _gobs(g, True),
          'rnk': [int(round(pr[v] * 1e8)) for v in range(n)], 'k2': -(-n * p2 // 8), 'k3': n * p3 // 8,
          'eps': 10, 'near': False}
    return {'cfg': {'x': 0}, 'lines': [ln]}


# ---- C24: colors ---------------------------------------------------------------
def mill(c):
    try:
        c = list(np.asarray(c, float).ravel())
    except (TypeError, ValueError):
        return [-9] * 4
    if len(c) != 4:
        return [-9] * 4
    return [int(round(x * 1e6)) for x in c]


def _state(net):
    """Everything a drawing must leave alone."""
    st = [repr(net.current_time), net.num_events, [int(x) for x in net.num_agents],
          repr(net.next_event_description()), repr(net.transitions().tolist()), net.blocking, repr(net.max_agents)]
    for q in net.edge2queue:
        st.append([repr(float(q.current_time)), repr(float(q.time)), q.num_system, q.number_queued(),
                   repr(q.num_servers), q.num_departures, bool(q.active), q.num_arrivals, bool(q.collect_data),
                   repr(sorted((repr(k), repr(v)) for k, v in q.data.items())), q.next_event_description()])
    return hashlib.sha256(repr(st).encode()).hexdigest()


def _figure(fig, nE, nV):
    from matplotlib.collections import LineCollection
    ax = fig.axes[0]
    lines = [c for c in ax.collections if isinstance(c, LineCollection)][0]
    dots = [c for c in ax.collections if not isinstance(c, LineCollection)][0]

    def full(a, n):
        a = np.asarray(a, float)
        if len(a) == 1 and n != 1:
            a = np.repeat(a, n, axis=0)
        return [mill(x) for x in a] if len(a) == n else [[-9] * 4] * n
    seg = [[[int(round(float(x) * 1e6)) for x in p] for p in s] for s in lines.get_segments()]
    off = [[int(round(float(x) * 1e6)) for x in p] for p in np.asarray(dots.get_offsets())]
    return {'e': full(lines.get_colors(), nE), 'v': full(dots.get_edgecolors(), nV),
            'f': full(dots.get_facecolors(), nV), 'pos': off if len(off) == nV else [[-9, -9]] * nV,
            'seg': seg if len(seg) == nE else [[[-9, -9]] * 2] * nE}


def _graph_colors(net):
    g = net.g
    edges = sorted(g.edges())
    return {'e': [mill(g.ep(e, 'edge_color')) for e in edges],
            'v': [mill(g.vp(v, 'vertex_color')) for v in range(net.nV)],
            'f': [mill(g.vp(v, 'vertex_fill_color')) for v in range(net.nV)]}


def _qs(net):
    return [{'n': int(q.num_system), 'c': INF if math.isinf(q.num_servers) else int(q.num_servers),
             'act': bool(q.active)} for q in net.edge2queue]


class Catch(object):
    """A file the figure is saved into: notes what the figure shows."""
    def __init__(self, net):
        self.net, self.shown = net, None

    def write(self, data):
        if self.shown is None:
            import matplotlib.pyplot as plt
            self.shown = _figure(plt.gcf(), self.net.nE, self.net.nV)
        return len(data)

    def flush(self):
        pass

    def seek(self, *a):
        return 0

    def tell(self):
        return 0


def _rgba(rng, alpha=None):
    return [rng.randrange(0, 101) / 100. for _ in range(3)] + [alpha if alpha is not None
                                                               else rng.randrange(1, 101) / 100.]


@each
def colors(qt, item, animate=True):
    import matplotlib.pyplot as plt
    import networkx as nx
    rng = random.Random(item)
    np.random.seed(rng.randrange(2 ** 31))
    n = rng.choice([2, 3, 4, 5])
    E = {(v, u) for v in range(n) for u in range(n) if rng.random() < 0.35}
    if rng.random() < 0.5:
        E = {e for e in E if e[0] != n - 1}
    for v in range(n):
        if not any(v in e for e in E):
            E.add((v, (v + 1) % n))
    E |= {(v, v) for v in range(n) if rng.random() < 0.3}
    E = sorted(E)
    srcs = {e[0] for e in E}
    types = rng.sample([1, 2, 3, 4], 2)
    ty = {e: 0 if e[1] not in srcs else rng.choice(types + ([0] if rng.random() < 0.3 else [])) for e in E}
    if all(y == 0 for y in ty.values()):
        e = (E[0][0], E[0][0])
        E = sorted(set(E) | {e})
        ty[e] = types[0]
    pos = {v: [rng.randrange(1000) / 1000., rng.randrange(1000) / 1000.] for v in range(n)}
    placed = rng.random() < 0.4         # the graph already says where its vertices are
    g = nx.DiGraph()
    for v in rng.sample(range(n), n):
        g.add_node(v, **({'pos': list(pos[v])} if placed else {}))
    for e in rng.sample(E, len(E)):
        g.add_edge(*e, edge_type=ty[e])
    if rng.random() < 0.5:
        g = qt.QueueNetworkDiGraph(g)
    classes, args = {}, {}
    for y in sorted(set(ty.values())):
        if y == 0:
            continue
        cls = rng.choice(['QueueServer', 'LossQueue', 'LossQueue', 'ResourceQueue', 'InfoQueue'])
        classes[y] = getattr(qt, cls)
        args[y] = {'num_servers': rng.choice([1, 1, 2, 3])}
        if cls == 'QueueServer' and rng.random() < 0.1:
            args[y]['num_servers'] = np.infty
        if cls == 'InfoQueue':
            args[y]['net_size'] = len(E)
        if cls == 'LossQueue' and rng.random() < 0.5:
            args[y]['qbuffer'] = rng.choice([0, 1, 3])
        if rng.random() < 0.4:
            args[y]['colors'] = {k: _rgba(rng) for k in
                                 rng.sample(['edge_loop_color', 'edge_color', 'vertex_fill_color', 'vertex_color',
                                             'vertex_pen_color'], rng.randint(1, 5))}
        if rng.random() < 0.4:
            args[y]['coloring_sensitivity'] = rng.choice([1, 2, 5])
    kw = {}
    if rng.random() < 0.5:
        kw['colors'] = {k: _rgba(rng) for k in
                        rng.sample(['vertex_fill_color', 'vertex_color', 'vertex_highlight', 'vertex_active',
                                    'vertex_inactive', 'edge_active', 'edge_inactive'], rng.randint(1, 7))}
    net = qt.QueueNetwork(g, q_classes=classes, q_args=args, blocking=rng.choice(['BAS', 'RS']), **kw)
    for q in net.edge2queue:
        # a resource queue that shows a type needs a color for the vertex
        if 'vertex_color' not in q.colors:
            q.colors = dict(q.colors, vertex_color=[0.1, 0.2, 0.3, 1.0])
    KIND = {'NullQueue': 'N', 'ResourceQueue': 'R'}
    zero = [0, 0, 0, 0]
    cfg = {'nv': n, 'net': {'fill': mill(net.colors['vertex_fill_color']), 'vert': mill(net.colors['vertex_color']),
                            'high': mill(net.colors['vertex_highlight']),
                            'vact': mill(net.colors['vertex_active']), 'vina': mill(net.colors['vertex_inactive']),
                            'eact': mill(net.colors['edge_active']), 'eina': mill(net.colors['edge_inactive'])},
           'edges': [{'u': q.edge[0] + 1, 'v': q.edge[1] + 1, 'ty': int(q.edge[3]),
                      'kind': KIND.get(type(q).__name__, 'Q'), 'sens': int(getattr(q, 'coloring_sensitivity', 2)),
                      'maxs': int(getattr(q, 'max_servers', 1)),
                      'loop': mill(q.colors['edge_loop_color']), 'edge': mill(q.colors['edge_color']),
                      'fill': mill(q.colors['vertex_fill_color']), 'vert': mill(q.colors['vertex_color']),
                      'pen': mill(q.colors['vertex_pen_color']) if 'vertex_pen_color' in q.colors else zero}
                     for q in net.edge2queue]}
    lines = []
    pos6 = [[int(round(x * 1e6)) for x in pos[v]] for v in range(n)]

    def note(op, f, **extra):
        before, q = _state(net), _qs(net)
        c = Catch(net)
        f(c)
        shown = c.shown or {}
        plt.close('all')
        lines.append(dict(extra, op=op, q=q, shown=shown, after=_graph_colors(net), quiet=_state(net) == before,
                          pos=pos6))

    def fkw(c):
        # positions are given once; later drawings use the stored ones
        return dict(fname=c, format='svg', figsize=(2, 2), **({'pos': pos} if rng.random() < 0.4 or not (lines or placed) else {}))
    note('draw', lambda c: net.draw(**fkw(c)))
    def start():
        net.initialize(queues=[q.edge[2] for q in net.edge2queue if q.edge[3] and rng.random() < 0.8] or
                       [q.edge[2] for q in net.edge2queue if q.edge[3]])
    started = rng.random() < 0.85
    if started:
        start()
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(['draw', 'active', 'type', 'reset', 'animate' if animate else 'draw'])
        if started and rng.random() < 0.8:
            net.simulate(rng.choice([1, 3, 10, 40]))
        if started and rng.random() < 0.15:
            net.clear()
            started = False
        elif not started and rng.random() < 0.5:
            start()
            started = True
        if rng.random() < 0.1:
            net = net.copy()
        if k == 'animate' and not started:
            k = 'active'
        if k == 'draw':
            note(k, lambda c: net.draw(**fkw(c)))
        elif k == 'active':
            note(k, lambda c: net.show_active(**fkw(c)))
        elif k == 'type':
            y = rng.choice(sorted(set(ty.values())))
            note(k, lambda c: net.show_type(y, **fkw(c)), ty=y)
        elif k == 'reset':
            note(k, lambda c: net.reset_colors())
        else:
            _animate(net, rng.choice([4, 8]), lines, pos, pos6)
            plt.close('all')
    return {'cfg': cfg, 'lines': lines}


def _animate(net, frames, lines, pos, pos6):
    from matplotlib.animation import AbstractMovieWriter

    class W(AbstractMovieWriter):
        @classmethod
        def isAvailable(cls):
            return True

        def __init__(self, *a, **k):
            super().__init__()

        def setup(self, fig, outfile, dpi=None):
            self.fig, self.outfile, self.dpi = fig, outfile, dpi or 50
            self.left = frames

        def grab_frame(self, **kw):
            lines.append({'op': 'animate', 'q': _qs(net), 'shown': _figure(self.fig, net.nE, net.nV),
                          'after': _graph_colors(net), 'quiet': True, 'pos': pos6})

        def finish(self):
            pass
    import contextlib
    import io
    import warnings
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        net.animate(filename='none.x', frames=frames, writer=W(), figsize=(2, 2), pos=pos)


# ---- C25: thinning ----------------------------------------------------------------
def _j_of(t, salt):
    """A rate (in sixteenths of the maximum) that looks random but depends on
    the time only."""
    h = hashlib.md5(repr((t, salt)).encode()).digest()
    return h[0] % 17


@each
def thinning(qt, item, calls=400):
    rng = random.Random(item)
    np.random.seed(rng.randrange(2 ** 31))
    rmax = rng.choice([1.0, 0.25, 3.0, 10.0, 200.0])
    kind = rng.choice(['hash', 'hash', 'hash', 'const', 'wave', 'full', 'sparse'])
    salt = rng.random()
    const = rng.choice([1, 4, 8, 15])

    def j_of(t):
        if kind == 'hash':
            return _j_of(t, salt)
        if kind == 'const':
            return const
        if kind == 'full':
            return 16
        if kind == 'sparse':
            return 16 if _j_of(t, salt) == 0 else 0
        return int(round(8 + 8 * math.sin(2 * t * rmax)))
    lines = []
    acc = {}
    bins = {}
    t = rng.choice([0.0, 0.0, 5.5, 1000.25])
    seen = []

    def rate(x):
        x = float(x)
        j = j_of(x)
        if not seen or seen[-1][0] != x:
            seen.append((x, j))
        return rmax * (j / 16.0)
    for i in range(calls):
        del seen[:]
        if i < 10:
            # extreme draws for accepting a candidate
            next_draws([rng.random() for _ in range(8)] if i == 0 else
                       [x for _ in range(4) for x in (0.01 + 0.9 * rng.random(), rng.choice([0.0, 1 - 2.0 ** -53]))],
                       rng)
        ret = float(qt.poisson_random_measure(t, rate, rmax))
        cand = list(seen)
        if len(cand) > 5000:
            break
        ts = sorted({t, ret} | {c[0] for c in cand})
        rank = {x: k for k, x in enumerate(ts)}
        if i < 60:
            lines.append({'op': 'call', 't': rank[t], 'ret': rank[ret],
                          'cand': [{'t': rank[c[0]], 'j': c[1]} for c in cand]})
        prev = t
        for k, (x, j) in enumerate(cand if i >= 10 else []):
            ok = k == len(cand) - 1
            a = acc.setdefault(j, [0, 0])
            a[0] += 1
            a[1] += ok
            u = -math.expm1(-(x - prev) * rmax)
            b = min(15, max(0, int(16 * u)))
            first = 'first' if k == 0 else 'later'
            for grp in ('all', first, 'j%d' % min(2, j // 6), 'last' if False else 'all2'):
                if grp == 'all2':
                    continue
                bins.setdefault(grp, [0] * 16)[b] += 1
            g = acc.setdefault(('b', b // 4, j), [0, 0])
            g[0] += 1
            g[1] += ok
            prev = x
        t = ret if rng.random() < 0.8 else rng.choice([0.0, 7.25])
    for key, (m, a) in sorted(acc.items(), key=str):
        j = key if isinstance(key, int) else key[2]
        lines.append({'op': 'acc', 'j': j, 'n': m, 'acc': a})
    for grp in sorted(bins):
        lines.append({'op': 'bins', 'cnt': bins[grp]})
    return {'cfg': {'x': 0}, 'lines': lines}


# ---- C27: requests -----------------------------------------------------------------
class NotAGraph(object):
    pass


@each
def requests(qt, item):
    import networkx as nx
    rng = random.Random(item)
    lines = []

    def tried(f):
        try:
            return '', f()
        except Exception as ex:
            import driver
            if isinstance(ex, (KeyboardInterrupt,)):
                raise
            return type(ex).__name__, None
    for _ in range(6):
        op = rng.choice(['servers', 'servers', 'graph', 'graph', 'blocking', 'blocking', 'props', 'sim'])
        ln = {'op': op, 'err': '', 'same': True, 'got': '', 'v': '', 'n': 0, 'what': '', 'text': '', 'kind': '',
              'sum': 0, 'lsum': 0, 'cls': '', 'via': ''}
        if op == 'servers':
            v, kind = rng.choice([(1, 'int'), (3, 'int'), (np.int64(2), 'int'), (np.infty, 'inf'), (0, 'int'),
                                  (-1, 'int'), (-5, 'int'), (np.int32(0), 'int'), (2.5, 'other'), (1.0, 'other'),
                                  ('2', 'other'), (None, 'other'), ([1], 'other'), (-np.infty, 'other'),
                                  (np.float64(2), 'other'), (float('nan'), 'other')])
            cls = rng.choice(['QueueServer', 'LossQueue', 'InfoQueue', 'ResourceQueue'])
            if cls == 'ResourceQueue' and (kind != 'int'):
                cls = 'LossQueue'
            ln.update(v=kind, n=int(v) if kind == 'int' else 0, cls=cls)
            if rng.random() < 0.4 or cls == 'ResourceQueue':
                ln['via'] = 'new'
                ln['err'], q = tried(lambda: getattr(qt, cls)(num_servers=v))
            else:
                ln['via'] = 'set'
                q = getattr(qt, cls)(num_servers=rng.choice([1, 2, 4]), collect_data=True)
                q.set_active()
                q.simulate(n=rng.choice([0, 5, 30]))
                b = _qstate(q)
                ln['err'], r = tried(lambda: q.set_num_servers(v))
                ln['same'] = _qstate(q) == b
            if not ln['err']:
                ln['got'] = 'inf' if math.isinf(q.num_servers) else str(int(q.num_servers))
        elif op == 'graph':
            good = {'digraph': nx.DiGraph([(0, 1), (1, 0)]), 'graph': nx.Graph([(0, 1)]),
                    'dict-of-dicts': {0: {1: {}}, 1: {0: {}}}, 'dict-of-lists': {0: [1], 1: [0]},
                    'matrix': np.array([[0, 1], [1, 0]]), 'queue-graph': qt.QueueNetworkDiGraph({0: [1], 1: [0]}),
                    'number': 3, 'text': 'abc', 'none-such': NotAGraph(), 'float': 1.5, 'list': [[0, 1], [1, 0]]}
            ln['what'] = rng.choice(sorted(good))
            x = good[ln['what']]
            f = rng.choice(['net', 'a2g', 'types', 'matrix', 'rank', 'lengths'])
            if f in ('net', 'types', 'matrix', 'rank', 'lengths') and ln['what'] == 'list':
                # networkx reads a list as edges: this one happens to be fine
                ln['what'] = 'text'
                x = 'abc'
            ln['via'] = f
            if f == 'net':
                ln['err'], r = tried(lambda: qt.QueueNetwork(x))
            elif f == 'a2g':
                ln['err'], r = tried(lambda: qt.adjacency2graph(x))
                if ln['what'] in ('digraph', 'graph', 'queue-graph'):
                    ln['what'] = 'not-adjacency'
            elif f == 'types':
                ln['err'], r = tried(lambda: qt.set_types_random(x))
            elif f == 'matrix':
                ln['err'], r = tried(lambda: qt.generate_transition_matrix(x))
            elif f == 'rank':
                ln['err'], r = tried(lambda: qt.set_types_rank(x, rank=np.array([1., 2.]), pType2=.5, pType3=.5))
            else:
                def lengths():
                    g = x
                    if isinstance(x, (nx.Graph, dict, np.ndarray)):
                        g = qt.QueueNetworkDiGraph(x)
                        g.set_pos({0: np.array([0., 1.]), 1: np.array([1., 0.])})
                    return qt.add_edge_lengths(g)
                ln['err'], r = tried(lengths)
        elif op == 'blocking':
            v = rng.choice(['rs', 'RS', 'Rs', 'rS', 'BAS', 'bas', '', 'r s', 'rss', 'other', 'Blocking', 1, None, True,
                            ['RS'], 2.5, b'rs'])
            ln['kind'] = 'text' if isinstance(v, str) else 'other'
            ln['text'] = v if isinstance(v, str) else ''
            g = qt.QueueNetworkDiGraph({0: [1], 1: [0]})
            if rng.random() < 0.5:
                ln['via'] = 'new'
                ln['err'], net = tried(lambda: qt.QueueNetwork(g, blocking=v))
            else:
                ln['via'] = 'set'
                net = qt.QueueNetwork(g, blocking=rng.choice(['RS', 'BAS']))
                net.initialize(1)
                net.simulate(3)
                b = _state(net)
                ln['err'], r = tried(lambda: setattr(net, 'blocking', v))
                ln['same'] = _state(net) == b
            if not ln['err']:
                ln['got'] = net.blocking
        elif op == 'props':
            a, b = rng.choice([64, 64, 63, 65, 32, 0]), rng.choice([64, 64, 64, 48, 128])
            ln['sum'], ln['lsum'] = a, b
            g = qt.QueueNetworkDiGraph({0: [0, 1], 1: [0]})
            ln['err'], r = tried(lambda: qt.set_types_random(g, proportions={1: a / 128., 2: a / 128.},
                                                             loop_proportions={1: b / 128., 3: b / 128.}))
        else:
            g = qt.QueueNetworkDiGraph({0: [1], 1: [0]})
            net = qt.QueueNetwork(g)
            if rng.random() < 0.5:
                net.initialize(1)
                net.simulate(5)
                net.clear()
            b = _state(net)
            f = rng.choice([lambda: net.simulate(), lambda: net.simulate(n=4), lambda: net.simulate(t=2.0),
                            lambda: net.animate(), lambda: net.animate(filename='x', frames=2)])
            ln['err'], r = tried(f)
            ln['same'] = _state(net) == b
        lines.append(ln)
    return {'cfg': {'x': 0}, 'lines': lines}


def _qstate(q):
    return repr([q.current_time, q.time, q.num_system, q.number_queued(), q.num_servers, q.num_departures, q.active,
                 q.num_arrivals, sorted((repr(k), repr(v)) for k, v in q.data.items()),
                 q.next_event_description()])


# ---- C10: default choices while a network is simulated -------------------------
@each
def simchoices(qt, item, events=4000):
    """Default destination choices made during simulations, counted by the
    situation in which they were made (all of them independent of the past)."""
    rng = random.Random(item)
    np.random.seed(rng.randrange(2 ** 31))
    n = rng.choice([2, 3, 4])
    E = sorted({(v, t) for v in range(n) for t in range(n) if rng.random() < 0.7} | {(v, (v + 1) % n) for v in range(n)})
    out = [sorted(e[1] for e in E if e[0] == v) for v in range(n)]
    seen = []

    class Chooser(qt.Agent):
        def desired_destination(self, network, edge):
            full = any(network.edge2queue[k].at_capacity() for k in network.out_edges[edge[1]])
            was = self.blocked
            d = qt.Agent.desired_destination(self, network, edge)
            seen.append((edge[1], int(d), ('blocked' if was else 'fresh', 'full' if full else 'room',
                                           'in%d' % edge[2], 'by%d' % (self.agent_id[0] % 3))))
            return d
    kind = rng.choice(['Q', 'L', 'L', 'L'])
    fast = rng.choice([0.3, 1.0])
    arg = {'num_servers': rng.choice([1, 2]), 'AgentFactory': Chooser,
           'arrival_f': lambda t: t + np.random.exponential(1.0),
           'service_f': lambda t: t + np.random.exponential(fast)}
    if kind == 'L':
        arg['qbuffer'] = rng.choice([0, 0, 1, 2])
    g = qt.adjacency2graph({v: {t: {} for t in out[v]} for v in range(n)})
    net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer if kind == 'Q' else qt.LossQueue}, q_args={1: arg},
                          blocking=rng.choice(['BAS', 'RS']), max_agents=rng.choice([n, 3 * n, 20]))
    where = {(v, net.g.edge_index[(v, t)]): j for v in range(n) for j, t in enumerate(out[v])}
    net.initialize(nActive=rng.randint(1, len(E)))
    lines = []
    for step in range(3):
        for v in (range(n) if step else ()):
            w = [rng.randrange(0, 5) for _ in out[v]]
            w[rng.randrange(len(w))] += 1
            while sum(w) not in (1, 2, 4, 8, 16, 32):
                w[rng.randrange(len(w))] += 1
            row = {t: x / float(sum(w)) for t, x in zip(out[v], w)}
            net.set_transitions({v: row})
            lines.append(dict(op='set', kind='dict', err='',
                              rows=[{'v': v + 1, 'row': [{'t': t + 1, 'p': ops.prob(x)} for t, x in row.items()]}],
                              **ops._look(net, n)))
        del seen[:]
        net.simulate(n=events)
        sits = {}
        for v, d, names in seen:
            for s in ('all',) + names:
                sits.setdefault((v, s), []).append(where.get((v, d)))
        for (v, s), js in sorted(sits.items()):
            k = len(out[v])
            cnt, pairs, last = [0] * k, [[0] * k for _ in range(k)], None
            for j in js:
                if j is not None:
                    cnt[j] += 1
                    if last is not None:
                        pairs[last][j] += 1
                    last = j
            lines.append({'op': 'choose', 'v': v + 1, 'cnt': cnt, 'pairs': pairs, 'off': js.count(None), 'when': s})
    return {'cfg': ops._cfg(net, E, n), 'lines': lines}
