"""The exhaustive exploration of the event semantics (spec/MCNet.tla): which
scenarios bear on which property, how deep, and the replay of the behaviours
TLC generates on the real code."""
import concurrent.futures
import json
import random

SCENARIOS = {
    'C01': 'q1 q2 qsrv qinf qdelay loss1 line res greedy',
    'C02': 'q1 q2 qdelay qties ring bas',
    'C03': 'loss0 loss1 q2 bas rs nres',
    'C04': 'loss0 loss1 lossinfo bas nres',
    'C05': 'active stopping cap0 stop',
    'C06': 'stop nstop',
    'C07': 'rows rows2 select nclear clear',
    'C08': 'line ring bas2 rs2 maxa',
    'C09': 'ring bas2 maxrs nres',
    'C10': 'default ring line',
    'C11': 'greedy greedy2',
    'C12': 'bas bas2 rs rs2',
    'C13': 'maxa maxrs',
    'C14': 'select init',
    'C15': 'init maxa active',
    'C16': 'clear nclear ninfo2',
    'C19': 'res nres nres2',
    'C20': 'info ninfo ninfo2 lossinfo',
}
# calls per behaviour: explored for the properties (quick, thorough), printed
DEPTHS = {'C01': (9, 11), 'C02': (8, 10), 'C03': (10, 13), 'C04': (12, 15), 'C05': (10, 14), 'C06': (4, 6),
          'C07': (8, 10), 'C08': (8, 10), 'C09': (8, 10), 'C10': (8, 10), 'C11': (14, 18), 'C12': (8, 10),
          'C13': (9, 12), 'C14': (7, 9), 'C15': (8, 10), 'C16': (7, 9), 'C19': (11, 15), 'C20': (7, 9)}
PRINTED = (4, 5)
WALK = (30, 45)          # calls per random behaviour
EACH = (500, 12000)      # exhaustive behaviours replayed, at most
WALKS = (320, 4000)   # random behaviours

CFG = '''SPECIFICATION Spec
CONSTANTS SCEN = {%s}
 PROPS = {%s}
 DEPTH = %d
 Emitting = %s
 Random = %s
 DrawArr <- MDrawArr
 DrawSvc <- MDrawSvc
 DrawDest <- MDrawDest
 Emit <- MEmit
 Retime <- MRetime
INVARIANT Holds
%sCHECK_DEADLOCK FALSE
'''


def config(run, props, depth, emitting=False, walk=False, scens=None):
    p = run.path('MCNet.cfg')
    q = lambda xs: ', '.join('"%s"' % x for x in xs)        # noqa: E731
    with open(p, 'w') as f:
        f.write(CFG % (q(scens or SCENARIOS[run.prop].split()), q(props), depth, str(emitting).upper(),
                       str(walk).upper(), 'INVARIANT Gen\n' if emitting else ''))
    return p


def depth(run):
    return DEPTHS[run.prop][1 if run.thorough() else 0]


def model(run):
    """Every schedule and every value, up to so many calls."""
    d = depth(run)
    run.model_check('MCNet.tla', config(run, [run.prop], d),
                    '%s: %s to depth %d' % (run.prop, SCENARIOS[run.prop], d),
                    None, 6000 if run.thorough() else 600, 6 if run.thorough() else 3)


def behaviours(run):
    """Behaviours of the specification: every short one (a sample, evenly
    spread, where there are more than can be replayed) and random long ones."""
    th = 1 if run.thorough() else 0
    scens = SCENARIOS[run.prop].split()
    procs = 4
    with concurrent.futures.ThreadPoolExecutor(procs + 1) as ex:
        a = ex.submit(run.generate, 'MCNet.tla', config(run, [], PRINTED[th], True), None, 2000, workers=3,
                      name='%s: every behaviour' % ' '.join(scens))
        cfg = config(run, [run.prop], WALK[th], True, True)
        bs = [ex.submit(run.generate, 'MCNet.tla', cfg, None, 2000, workers=1,
                        name='%s: random behaviours' % ' '.join(scens), simulate='num=%d' % (WALKS[th] // procs),
                        extra=('-depth', str(WALK[th] + 3), '-seed', str(run.seed * procs + i)))
              for i in range(procs)]
        short, long_ = a.result(), sum((b.result() for b in bs), [])
    rnd = random.Random(run.seed)
    by = {}
    for x in short:
        by.setdefault(x['sc'], []).append(x)
    out = []
    for sc in sorted(by):
        xs = by[sc]
        n = max(EACH[th] // len(scens), 40)
        if len(xs) > n:
            at = rnd.random()
            step = len(xs) / n
            xs = [xs[int((i + at) * step) % len(xs)] for i in range(n)]
        out += xs
    # TLC prints every continuation of a walk's last step: one is enough
    one = {}
    for x in long_:
        one.setdefault(json.dumps([x['sc'], x['hist'][:-1]], sort_keys=True), x)
    return out, [one[k] for k in one]


def replayed(run, relevant):
    short, long_ = behaviours(run)
    run.items('gen', short + long_, 'TraceNet', relevant, part='generated')
