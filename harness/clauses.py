"""Which divergences from the specification concern which property."""

GROUPS = {
    'ARR': ('arr-', 'new-'),
    'SVC': ('svc-', 'st-'),
    'AV': ('av-',),
    'DP': ('dp-', 'returned-agent'),
    'LOS': ('los-',),
    'DST': ('dst-', 'greedy-choice', 'dest-not-an-edge', 'agent-blocked-count'),
    'TIME': ('time', 'current-time', 'next-event-kind'),
    'CNT': ('num-system', 'num-queued', 'num-arrivals', 'num-outside', 'num-departures', 'num-blocked'),
    'ACT': ('active',),
    'SERV': ('num-servers',),
    'CAPD': ('at-capacity',),
    'ROWS': ('rows', 'queue-data', 'agent-data'),
    'COLL': ('collecting',),
    'INFO': ('queue-information', 'agent-information'),
    'OVER': ('over-max',),
    'NET': ('net-',),
    'INIT': ('init-',),
    'RAISE': ('raised-', 'not-raised-'),
    'OTHER': ('other-instance-',),
}


def group(clause):
    if clause.startswith('inv-'):
        return clause
    for g, pres in GROUPS.items():
        if any(clause == p or (p.endswith('-') and clause.startswith(p)) for p in pres):
            return g
    if clause in ('rows-order',):
        return 'ROWS'
    return clause


def only(*wanted):
    """A divergence matters if its group, or the clause itself, is wanted."""
    ws = set(wanted) | {'RAISE'}

    def f(clause, line, trace, idx):
        c = clause[len('other-instance-'):] if clause.startswith('other-instance-') else clause
        return clause in ws or c in ws or group(clause) in ws or group(c) in ws
    return f


def everything(clause, line, trace, idx):
    return True


def at_ops(*ops, also=()):
    """Everything on lines of these operations; elsewhere the groups in also."""
    rest = only(*also)

    def f(clause, line, trace, idx):
        return line['op'] in ops or rest(clause, line, trace, idx)
    return f


def after_clear(clause, line, trace, idx):
    """On a clear, or anywhere after one of the same instance."""
    return any(x['op'] in ('clear', 'cleardata') and x['i'] == line['i'] for x in trace['lines'][:idx])


def with_copies(clause, line, trace, idx):
    """Anything once there are two instances."""
    return any(x['op'] == 'copy' for x in trace['lines'][:idx])
