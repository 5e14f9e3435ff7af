"""What each property's check runs.

part kinds
  mc     (module, cfg, quick?)         exhaustive model checking of the specification
  queue / net (profile, nq, nt, rel)   recorded traces validated against the specification
  fn     (function)                    a special part, called with the Run
"""
import clauses as cl
import mcnet

ONLY = cl.only


def Q(profile, n, nt, rel):
    return ('queue', profile, n, nt, rel)


def N(profile, n, nt, rel):
    return ('net', profile, n, nt, rel)


def traces_plan():
    P = {}
    r = ONLY('SVC', 'num-queued', 'num-system', 'SERV', 'TIME', 'ROWS', 'AV', 'DP')
    P['C01'] = [Q('servers', 160, 2500, r), Q('any', 80, 1200, r), N('any', 60, 800, r), N('greedy', 20, 200, r),
                Q('long', 24, 300, r)]
    r = ONLY('ARR', 'SVC', 'TIME', 'AV', 'DP', 'inv-no-past')
    P['C02'] = [Q('ties', 120, 1800, r), Q('delays', 100, 1500, r), Q('active', 40, 400, r), N('ties', 40, 500, r), Q('long', 8, 100, r),
                N('any', 20, 400, r)]
    r = ONLY('CNT', 'inv-counters', 'CAPD', 'AV', 'DP', 'LOS')
    P['C03'] = [Q('any', 120, 1500, r), Q('loss', 60, 800, r), Q('resource', 30, 300, r), N('any', 50, 700, r),
                N('blocking', 30, 300, r), N('resource-wait', 40, 400, r), N('big', 4, 80, r),
                Q('long', 8, 100, r)]
    r = ONLY('CAPD', 'LOS', 'CNT', 'AV', 'SVC')
    P['C04'] = [Q('loss', 180, 2500, r), N('loss', 60, 900, r), N('blocking', 25, 300, r), N('resource', 20, 200, r)]
    r = ONLY('ARR', 'ACT', 'num-outside', 'time', 'inv-outside', 'AV', 'net-num-agents', 'net-time')
    P['C05'] = [Q('active', 180, 2500, r), Q('loss', 40, 500, r), Q('info', 20, 300, r), N('active', 60, 900, r),
                N('init', 20, 300, r)]
    r = cl.at_ops('sim', 'nsim', 'next')
    P['C06'] = [Q('stop', 220, 3000, r), N('stop', 90, 1200, r)]
    r = ONLY('ROWS', 'COLL', 'inv-rows')
    P['C07'] = [Q('rows', 150, 2000, r), Q('resource', 30, 300, r), N('rows', 70, 900, r), N('resource', 15, 200, r),
                N('resource-rows', 60, 600, r), N('select', 20, 200, r)]
    r = ONLY('NET', 'TIME', 'CNT', 'inv-no-past', 'ARR', 'SVC', 'AV', 'DP')
    P['C08'] = [N('any', 80, 1200, r), N('ties', 60, 800, r), N('init', 40, 500, r), N('blocking', 25, 300, r), N('big', 6, 80, r)]
    r = ONLY('net-num-agents', 'CNT', 'AV', 'DP', 'LOS', 'DST', 'inv-conserved', 'ARR')
    P['C09'] = [N('any', 80, 1200, r), N('ties', 50, 700, r), N('blocking', 25, 300, r), N('resource', 30, 300, r),
                N('loss', 30, 300, r), N('big', 6, 80, r)]
    r = ONLY('DST', 'AV', 'DP')
    P['C10'] = [N('default-routing', 90, 1200, r), N('big', 6, 80, r)]
    r = ONLY('DST')
    P['C11'] = [N('greedy', 120, 1800, r)]
    r = ONLY('num-blocked', 'agent-blocked-count', 'TIME', 'SVC', 'DST', 'DP', 'AV', 'net-blocking', 'CNT')
    P['C12'] = [N('blocking', 100, 1500, r), N('rs', 60, 900, r)]
    r = ONLY('ACT', 'net-num-agents', 'net-max-agents', 'ARR', 'num-outside', 'INIT')
    P['C13'] = [N('maxa', 160, 2400, r), N('big', 4, 80, r)]
    r = ONLY('ROWS', 'COLL', 'INIT', 'ACT', 'ARR')
    P['C14'] = [N('select', 130, 2000, r), N('init', 30, 400, r)]
    r = cl.at_ops('init', also=('INIT', 'ACT', 'TIME', 'NET', 'ARR', 'inv-no-past'))
    P['C15'] = [N('init', 140, 2000, r), N('active', 20, 300, r), N('maxa', 20, 300, r)]
    r = cl.after_clear
    P['C16'] = [Q('clear', 130, 1800, r), N('clear', 70, 900, r)]
    r = cl.with_copies
    P['C17'] = [Q('copy', 110, 1500, r), N('copy', 50, 700, r), N('copy-info', 15, 200, r), N('copy-res', 15, 200, r)]
    r = ONLY('SERV', 'OVER', 'CAPD', 'CNT', 'ROWS', 'AV', 'DP', 'LOS', 'SVC')
    P['C19'] = [Q('resource', 90, 1200, r), N('resource', 60, 900, r), N('resource-wait', 50, 600, r),
                N('resource-rs', 30, 400, r)]
    r = ONLY('INFO', 'LOS', 'AV')
    P['C20'] = [Q('info', 60, 800, r), N('info', 70, 1000, r), N('info-tie', 30, 400, r)]
    r = cl.at_ops('bad', 'init', 'bas')
    P['C27'] = [Q('invalid', 110, 1500, r), N('invalid', 70, 1000, r)]
    return P


TRACES = traces_plan()

# exhaustively checked configurations of the specification
MC = {
    'C21': [('MCScheduler.tla', 'MCScheduler.cfg', 'quick'), ('MCScheduler.tla', 'MCScheduler4.cfg', 'thorough')],
    'C26': [('MCUnionFind.tla', 'MCUnionFind.cfg', 'quick'), ('MCUnionFind.tla', 'MCUnionFind6.cfg', 'thorough')],
}


def seeds(run, n, salt=0):
    return [(run.seed * 1000003 + salt * 100003 + j) % (2 ** 31) for j in range(n)]


def ops(fn, module, nq, nt, salt=0, **kw):
    """nq (quick) or nt (thorough) random items of a job function."""
    def part(run):
        run.items(fn, seeds(run, nt if run.thorough() else nq, salt), module, **kw)
    return part


def sched_generated(run):
    seqs = run.generate('MCScheduler.tla', 'GenScheduler7.cfg' if run.thorough() else 'GenScheduler.cfg')
    run.items('sched_replay', [[i % 3, s] for i, s in enumerate(seqs)], 'Scheduler', part='generated')


def uf_generated(run):
    seqs = run.generate('MCUnionFind.tla', 'GenUnionFind4.cfg' if run.thorough() else 'GenUnionFind.cfg')
    run.items('uf_replay', seqs, 'UnionFind', part='generated')


EXTRA = {
    'C06': [ops('twin_split', 'Twin', 400, 6000)],
    'C10': [ops('choices', 'Transitions', 40, 600), ops('simchoices', 'Transitions', 40, 600, 1)],
    'C16': [ops('twin_seed', 'Twin', 400, 6000), ops('twin_clear', 'Twin', 400, 6000, 1)],
    'C17': [ops('twin_copy', 'Twin', 600, 8000)],
    'C18': [ops('routing', 'Transitions', 1500, 30000)],
    'C21': [sched_generated, ops('sched_random', 'Scheduler', 2000, 40000)],
    'C22': [ops('prepare', 'GraphPrep', 4000, 60000)],
    'C23': [ops('generators', 'GraphGen', 2500, 40000), ops('typefreq', 'GraphGen', 60, 1000, 1),
            ops('pagerank', 'GraphGen', 500, 8000, 2)],
    'C24': [ops('colors', 'Colors', 500, 6000)],
    'C25': [ops('thinning', 'Thinning', 24, 400, calls=3000)],
    'C26': [uf_generated, ops('uf_random', 'UnionFind', 1500, 30000)],
    'C27': [ops('requests', 'Requests', 1500, 20000)],
    'C28': [ops('digraph', 'DiGraph', 2500, 40000)],
    'C29': [ops('convert', 'Convert', 3000, 50000)],
}
_MODULES = {'gen': 'TraceNet', 'sched_replay': 'Scheduler', 'sched_random': 'Scheduler', 'uf_replay': 'UnionFind',
            'uf_random': 'UnionFind', 'routing': 'Transitions', 'choices': 'Transitions', 'simchoices': 'Transitions', 'digraph': 'DiGraph',
            'prepare': 'GraphPrep', 'generators': 'GraphGen', 'typefreq': 'GraphGen', 'pagerank': 'GraphGen',
            'colors': 'Colors', 'thinning': 'Thinning', 'requests': 'Requests', 'twin_seed': 'Twin',
            'convert': 'Convert', 'twin_clear': 'Twin', 'twin_copy': 'Twin', 'twin_split': 'Twin'}


def _replay_of(prop):
    rel = TRACES[prop][0][4]
    return lambda run: mcnet.replayed(run, lambda tid, *x: rel(*x))


for _p in mcnet.SCENARIOS:
    EXTRA.setdefault(_p, []).append(_replay_of(_p))


def replayer(job):
    """How to judge the results of a replayed job again."""
    module = _MODULES[job['fn'].split(':')[1]]
    return lambda run, res: run.check_items(res, module)


ASSUMPTIONS = {}

_V = 'traces recorded from the code are validated against the specification'
_O = 'operations recorded from the code, with all arguments and results, are validated against the specification'
_R = 'every behaviour the specification generates is replayed on the code, and ' + _O
_T = _V + '; twin histories of the code are compared step by step'
_G = ('the promise is model-checked exhaustively on the specification; behaviours TLC generates are replayed on the '
      'code; ')
_N = 'QueueNet, MCNet, TraceNet'
DONE = {p: (_N, _G + _V) for p in TRACES}
DONE.update({
    'C06': (_N + ', Twin', _G + _T), 'C16': (_N + ', Twin', _G + _T),
    'C17': ('QueueNet, TraceNet, Twin', _T), 'C10': (_N + ', Transitions', _G + _V),
    'C18': ('Transitions', _O), 'C21': ('Scheduler, MCScheduler', _R), 'C22': ('GraphPrep', _O),
    'C23': ('GraphGen', _O), 'C24': ('Colors', _O), 'C25': ('Thinning', _O), 'C26': ('UnionFind, MCUnionFind', _R),
    'C27': ('QueueNet, TraceNet, Requests', _V), 'C28': ('DiGraph', _O),
    'C29': ('Convert', _O)})
