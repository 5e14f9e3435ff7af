"""Records executions of the real code as traces for spec/TraceNet.tla.

Only the public interface is used: agents are subclasses of the library's
agent classes whose callbacks log what they are given, the arrival and service
functions are closures that log their argument and result, and after every
public call the public state of every live instance is projected.
"""
import itertools
import math
import random
import signal

import numpy as np

INF = 1000000000
KINDS = ('arr', 'svc', 'dst', 'st', 'av', 'dp', 'los', 'new')


HEADER = 'arrival,service,departure,num_queued,num_total,q_id'


class Tm(float):
    """A simulation time (becomes a rank when the trace is written)."""


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang('call did not return')


def tm(x):
    return Tm(float(x))


def cnt(x):
    """A count or size that may be infinite."""
    if isinstance(x, (float, np.floating)) and math.isinf(x):
        return INF
    return int(x)


class Log(object):
    def __init__(self):
        self.reset()
        self.on = True

    def reset(self):
        self.s = {k: [] for k in KINDS}

    def add(self, kind, *entry):
        if self.on:
            self.s[kind].append(list(entry))
            if len(self.s[kind]) > 20000:
                raise Hang('runaway call')

    def __deepcopy__(self, memo):
        return self


def aid(agent_id):
    return [int(agent_id[0]) + 1, int(agent_id[1])]


def info(mat):
    out = []
    for t, c, ld in np.asarray(mat, float):
        if t == -1:
            out.append({'t': -1, 'c': int(c) if abs(c) < INF else INF,
                        'ld': int(round(ld)) if ld == -1 else int(round(ld * 5040))})
        else:
            out.append({'t': tm(t), 'c': cnt(c), 'ld': int(round(ld * 5040))})
    return out


def make_agents(qt, log, choose):
    """Logging agent classes.  choose(network, edge, agent) scripts the
    destination of plain agents; None means the library's own choice."""

    def mixin(base, own_dest):
        class A(base):
            def queue_action(self, queue, *args, **kwargs):
                base.queue_action(self, queue, *args, **kwargs)
                kind = ('av', 'st', 'dp')[args[0]]
                entry = [queue.edge[2] + 1, aid(self.agent_id)]
                if base is qt.InfoAgent:
                    entry.append(info(self.net_data))
                log.add(kind, *entry)

            def desired_destination(self, network, edge):
                if own_dest or choose is None:
                    d = base.desired_destination(self, network, edge)
                else:
                    d = choose(network, edge, self)
                log.add('dst', edge[2] + 1, aid(self.agent_id), int(d) + 1, int(self.blocked))
                return d

            def add_loss(self, qedge, *args, **kwargs):
                base.add_loss(self, qedge, *args, **kwargs)
                log.add('los', qedge[2] + 1, aid(self.agent_id))
        A.__name__ = 'Logged' + base.__name__
        return A

    return {'A': mixin(qt.Agent, False), 'D': mixin(qt.Agent, True),
            'G': mixin(qt.GreedyAgent, True), 'R': mixin(qt.ResourceAgent, False),
            'I': mixin(qt.InfoAgent, False)}


class Trace(object):
    """One trace: a root instance (queue or network), copies of it, and lines."""

    def __init__(self, qt, tid, call_limit=20):
        self.qt = qt
        self.tid = tid
        self.log = Log()
        self.insts = {}
        self.lines = []
        self.cfg = None
        self.meta = []
        self.fetched = 0
        self.failed = None       # set when a call raised unexpectedly / hung
        self.call_limit = call_limit

    # ---- construction -------------------------------------------------
    def start(self, kind, obj, qcfgs, maxa=INF, bas=True):
        self.kind = kind
        self.cfg = {'kind': kind, 'zero': tm(0.0), 'maxa': maxa, 'bas': bas,
                    'qs': [dict(c, dt=tm(c['dt'])) for c in qcfgs]}
        self.insts[1] = obj
        self.cls = [c['cls'] for c in qcfgs]
        self.line(1, 'nop', lambda o: None)

    # ---- projection ---------------------------------------------------
    def queues(self, obj):
        return [obj] if self.kind == 'queue' else list(obj.edge2queue)

    def obs_queue(self, k, q, rows):
        cls = self.cls[k]
        na = q.num_arrivals
        o = {'T': tm(q.time), 'now': tm(q.current_time), 'nsys': int(q.num_system),
             'nq': int(q.number_queued()), 'narr': int(na[0]), 'oarr': int(na[1]),
             'ndep': int(q.num_departures),
             'nblk': int(q.num_blocked) if cls in 'LRI' else 0,
             'act': bool(q.active), 'c': cnt(q.num_servers), 'capd': bool(q.at_capacity()),
             'ned': int(q.next_event_description()), 'coll': bool(q.collect_data),
             'over': int(q.over_max) if cls == 'R' else 0,
             'hasnet': cls == 'I', 'net': info(q.net_data) if cls == 'I' else [],
             'hasrows': bool(rows), 'rows': []}
        if rows:
            # the same rows with and without the header
            self.fetched += 1
            o['rows'] = self.rows(q.fetch_data() if self.fetched % 3 else self.headed(q.fetch_data(return_header=True)))
        return o

    @staticmethod
    def headed(x):
        """The data of a (data, header) pair; what no data can be if the header is wrong."""
        if isinstance(x, tuple) and len(x) == 2 and x[1] == HEADER:
            return x[0]
        return {} if isinstance(x[0], dict) else [[-1.] * 6]

    @staticmethod
    def rows(dat):
        return [[tm(r[0]), tm(r[1]), tm(r[2]), cnt(r[3]), cnt(r[4]), int(r[5]) + 1]
                for r in np.asarray(dat)]

    def observe(self, i, rows=False, get=()):
        obj = self.insts[i]
        o = {'i': i, 'q': [self.obs_queue(k, q, rows) for k, q in enumerate(self.queues(obj))],
             'get': list(get)}
        if self.kind == 'net':
            kind, e = obj.next_event_description()
            o['net'] = {'t': tm(obj.current_time), 'nev': int(obj.num_events), 'T': tm(obj.time),
                        'nag': [int(x) for x in obj.num_agents],
                        'nedk': {'Nothing': 0, 'Arrival': 1, 'Departure': 2}[kind],
                        'nede': 0 if e is None else int(e) + 1,
                        'maxa': cnt(obj.max_agents), 'bas': obj.blocking == 'BAS'}
        return o

    # ---- one line -------------------------------------------------------
    def line(self, i, op, call, rows=False, gets=None, want='', all_insts=True, desc=None, **args):
        """Performs call(instance) and records the line.  Returns False if the
        trace cannot go on."""
        if self.failed:
            return False
        self.log.reset()
        ln = {'i': i, 'op': op, 'want': want, 'err': '', 'ret': [], 'k': 1, 'n': 0, 'mode': 'n',
              'b': False, 'new': 0, 'sel': {'kind': 'all', 'v': [], 'n': 0, 'err': ''}}
        ln.update(args)
        obj = self.insts[i]
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.call_limit)
        ret = None
        try:
            try:
                ret = call(obj)
            except Hang:
                raise
            except Exception as ex:
                ln['err'] = type(ex).__name__
                ln['errtext'] = str(ex)[:200]
            ln['log'] = self.log.s
            if op == 'next' and ret is not None:
                ln['ret'] = aid(ret.agent_id)
            if op == 'copy' and not ln['err']:
                self.insts[ln['new']] = ret
            self.log.on = False
            try:
                get = []
                if gets and not ln['err']:
                    get = gets(obj)
                obs = []
                for j in sorted(self.insts):
                    if all_insts or j == i:
                        obs.append(self.observe(j, rows, get if j == i else ()))
                ln['obs'] = obs
            finally:
                self.log.on = True
        except Hang as ex:
            self.failed = ('hang', op, str(ex))
        except Exception as ex:
            self.failed = ('observation-raised', op, '%s: %s' % (type(ex).__name__, ex))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        ln['desc'] = desc or ''
        if self.failed:
            return False
        self.lines.append(ln)
        return ln['err'] == '' or want != ''

    # ---- output -----------------------------------------------------------
    def finish(self):
        """The trace with all times replaced by ranks."""
        base = set()

        def collect(x):
            if isinstance(x, Tm):
                if not math.isinf(x):
                    base.add(float(x))
            elif isinstance(x, dict):
                for v in x.values():
                    collect(v)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    collect(v)
        collect(self.cfg)
        collect(self.lines)
        allv = set(base)
        nxt = {}
        for x in base:
            y = x
            for _ in range(3):
                z = y + 1e-6
                nxt[y] = z
                allv.add(z)
                y = z
        order = {v: r for r, v in enumerate(sorted(allv), 1)}
        eps = [0] * len(order)
        for v, r in order.items():
            eps[r - 1] = order[nxt[v]] if v in nxt else r

        def conv(x):
            if isinstance(x, Tm):
                if math.isnan(x):
                    return -7
                return INF if math.isinf(x) and x > 0 else (-8 if math.isinf(x) else order[float(x)])
            if isinstance(x, dict):
                return {k: conv(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [conv(v) for v in x]
            if isinstance(x, (bool, np.bool_)):
                return bool(x)
            if isinstance(x, (int, np.integer)):
                x = int(x)
                return x if abs(x) <= 2000000000 else (INF if x > 0 else -INF)
            return x
        return {'id': self.tid, 'eps': eps, 'cfg': conv(self.cfg), 'lines': conv(self.lines)}

    def raw(self):
        def conv(x):
            if isinstance(x, Tm):
                return float(x) if not math.isinf(x) else 'inf'
            if isinstance(x, dict):
                return {k: conv(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [conv(v) for v in x]
            return x
        return conv(self.lines)
