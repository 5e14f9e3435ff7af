"""Profiles: what the random scenario drivers are biased towards."""
from recorder import INF

QUEUE = {
    'any': {},
    'plain': {'cls': {'Q': 1}},
    'servers': {'cls': {'Q': 4, 'L': 2, 'I': 1}, 'c': {1: 3, 2: 3, 3: 1}, 'c_inf': 0.1,
                'ops': {'set_servers': 5, 'next': 10, 'set_inactive': 0.3}, 'buf': {INF: 2, 2: 1, 4: 1}},
    # long lines, many servers, many events in one call
    'long': {'grid': 0.0, 'cls': {'Q': 3, 'L': 2}, 'c': {1: 4, 3: 1, 20: 1}, 'c_inf': 0, 'buf': {INF: 2, 90: 1, 30: 1}, 'ns': [1, 7, 60],
             'ts': [1.0, 8.0], 'srv': [1, 1, 2, 5, 33, 70, 100, INF, INF], 'load': [5.0, 9.0, 9.0, 0.1], 'cap': {INF: 9, 100: 1},
             'dt_inf': 1.0, 'lines': (2, 6), 'lead': [60, 130, 200], 'rows': 0.3, 'coll': 0.3,
             'ops': {'simn': 8, 'simt': 2, 'simnA': 3, 'simnD': 1, 'set_servers': 9, 'next': 3, 'delay': 1, 'clear': 0.1,
                     'set_inactive': 0.2, 'copy': 0.1}},
    'ties': {'grid': 1.0, 'ops': {'next': 14, 'delay': 2}},
    'delays': {'ops': {'delay': 5, 'next': 10}},
    'loss': {'cls': {'L': 5, 'R': 1, 'I': 1}, 'buf': {0: 3, 1: 2, 2: 1}, 'ibuf': {0: 1, 1: 1, 2: 1},
             'rbuf': {0: 2, 1: 2, 3: 1}, 'ops': {'set_servers': 2, 'next': 14}},
    'active': {'cap': {INF: 1, 0: 1, 1: 1, 2: 1, 3: 2, 5: 1}, 'dt_inf': 0.4, 'lines': (20, 60),
               'ops': {'set_active': 4, 'set_inactive': 2, 'next': 8, 'clear': 0.5}},
    'stop': {'ops': {'next': 2, 'simn': 6, 'simt': 6, 'simnD': 5, 'simnA': 4, 'set_inactive': 1},
             'cap': {INF: 3, 2: 1, 4: 1, 8: 1}, 'dt_inf': 0.6},
    'rows': {'coll': 0.7, 'rows': 1.0, 'ops': {'coll': 3, 'next': 10, 'clear': 0.6, 'copy': 0.3},
             'lines': (20, 50)},
    'clear': {'ops': {'clear': 3, 'next': 10, 'set_servers': 2}, 'rows': 0.8, 'cap': {INF: 3, 3: 1, 5: 1},
              'dt_inf': 0.6},
    'copy': {'ops': {'copy': 3, 'next': 10, 'coll': 1.5, 'set_servers': 2, 'delay': 2, 'set_inactive': 1,
                     'clear': 0.6}, 'rows': 1.0, 'lines': (20, 40)},
    'resource': {'cls': {'R': 1}, 'agents': {'R': {'R': 4, 'A': 1}}, 'rows': 0.6, 'lines': (25, 60),
                 'ops': {'set_servers': 1.5, 'next': 16}},
    'info': {'cls': {'I': 1}, 'agents': {'I': {'I': 5, 'A': 1}}, 'rows': 0.4},
    'invalid': {'cls': {'Q': 2, 'L': 1, 'R': 1, 'I': 1}, 'ops': {'bad': 4, 'next': 8}, 'rows': 0.7},
}

R_NET = {'cls': {'R': 3, 'Q': 1, 'L': 1}, 'agents': {'R': {'R': 5, 'A': 1}, 'Q': {'R': 1, 'A': 1},
                                                    'L': {'R': 1, 'A': 1}},
         'mix': 0.3, 'mixed': {'R': 3, 'A': 1}, 'types': [1, 1, 2, 3]}
I_NET = {'cls': {'I': 4, 'Q': 1}, 'agents': {'I': {'I': 6, 'A': 1}, 'Q': {'I': 1, 'A': 1}},
         'mix': 0.2, 'mixed': {'I': 3, 'A': 1}}

NET = {
    'invalid': {'ops': {'bad': 4, 'clear': 0.6, 'init': 1.5, 'sim1': 8, 'bas': 0.5}, 'reinit': 0.3, 'rows': 0.6,
                'get': 0.3},
    'any': {},
    # many queues, many events
    'big': {'shapes': {'big': 1}, 'bas': 0.0, 'types': [1, 2, 3], 'lines': (8, 16), 'ns': [3, 20, 40, 60],
            'inits': [3, 5, 8, 50], 'init_n': 0.6, 'cap': {INF: 6, 5: 1}, 'dt_inf': 0.9, 'maxa': {INF: 4, 12: 1},
            'ops': {'sim1': 2, 'simn': 10, 'simt': 4, 'init': 1.5, 'copy': 0}, 'get': 0.2, 'rows': 0.3},
    'ties': {'grid': 1.0, 'ops': {'sim1': 16}},
    'plain': {'cls': {'Q': 1}, 'ops': {'simn': 4, 'simt': 4}},
    'default-routing': {'agents': {'Q': {'D': 1}, 'L': {'D': 1}}, 'types': [1, 2, 3],
                        'ops': {'route': 3, 'sim1': 14, 'simn': 3}, 'cls': {'Q': 3, 'L': 3},
                        'shapes': {'random': 5, 'star': 2, 'loops': 1}},
    'blocking': {'cls': {'L': 5, 'Q': 1}, 'buf': {0: 4, 1: 2, 2: 1}, 'c': {1: 5, 2: 2}, 'cap': {INF: 1},
                 'dt_inf': 1.0, 'load': [2.0, 2.0, 4.0], 'bas': 0.6, 'lines': (30, 70), 'maxa': {INF: 1},
                 'shapes': {'line': 2, 'ring': 2, 'star': 1, 'random': 2, 'loops': 2},
                 'ops': {'sim1': 30, 'bas': 0.3}},
    'rs': {'cls': {'L': 5, 'Q': 1}, 'buf': {0: 4, 1: 2, 2: 1}, 'cap': {INF: 1}, 'load': [2.0, 4.0],
           'bas': 0.0, 'lines': (25, 60), 'ops': {'sim1': 10, 'simn': 3, 'simt': 2}},
    'loss': {'cls': {'L': 6, 'I': 1, 'R': 1}, 'buf': {0: 3, 1: 2, 2: 1}, 'ibuf': {0: 1, 1: 1},
             'load': [1.0, 2.0, 4.0], 'ascale': 0.7, 'lines': (25, 60)},
    'greedy': {'agents': {'Q': {'G': 1}, 'L': {'G': 3, 'A': 1}}, 'shapes': {'star': 4, 'random': 3},
               'cls': {'Q': 3, 'L': 1}, 'load': [2.0, 4.0], 'c': {1: 3, 2: 1}, 'ascale': 0.6,
               'cap': {INF: 1}, 'lines': (30, 70), 'ops': {'sim1': 20, 'simn': 4, 'nsrv': 3}, 'grid': 0.3},
    'maxa': {'maxa': {2: 2, 3: 2, 4: 2, 5: 1, 7: 1}, 'lines': (25, 60), 'ascale': 0.6,
             'ops': {'init': 2.5, 'maxa': 1, 'sim1': 16}},
    'active': {'cap': {INF: 1, 0: 1, 1: 1, 2: 1, 4: 2}, 'dt_inf': 0.4, 'ops': {'init': 3, 'sim1': 14},
               'lines': (25, 60)},
    'init': {'ops': {'init': 5, 'clear': 0.8, 'sim1': 10}, 'init_n': 0.45, 'types': [1, 2, 3],
             'cap': {INF: 3, 0: 1, 2: 1, 4: 1}, 'maxa': {INF: 4, 2: 1, 4: 1}, 'lines': (20, 45)},
    'select': {'ops': {'coll': 5, 'cleardata': 3, 'init': 1.5, 'sim1': 10}, 'types': [1, 2, 3, 4],
               'get': 0.8, 'rows': 0.3, 'coll': 0.7, 'lines': (20, 45)},
    'rows': {'coll': 0.8, 'rows': 0.8, 'get': 0.5, 'ops': {'coll': 2, 'cleardata': 1, 'sim1': 14},
             'cls': {'L': 3, 'Q': 2}, 'lines': (20, 50)},
    'clear': {'ops': {'clear': 2, 'sim1': 12}, 'rows': 0.6, 'lines': (25, 55), 'cap': {INF: 3, 3: 1}},
    'copy': {'ops': {'copy': 2, 'sim1': 10, 'coll': 1.5, 'init': 1, 'clear': 0.4, 'cleardata': 0.5, 'maxa': .5},
             'rows': 0.6, 'get': 0.4, 'lines': (15, 35)},
    'copy-info': dict(I_NET, ops={'copy': 2, 'sim1': 12}, rows=0.5, lines=(15, 30)),
    'copy-res': dict(R_NET, ops={'copy': 2, 'sim1': 12}, rows=0.5, lines=(15, 30)),
    'stop': {'ops': {'simn': 10, 'simt': 10, 'sim1': 4, 'init': 1}, 'bas': 0.0, 'cap': {INF: 3, 2: 1, 4: 1},
             'lines': (15, 40)},
    'resource': dict(R_NET, lines=(30, 70), rows=0.3, cap={INF: 1}, ops={'sim1': 20}),
    'resource-wait': dict(R_NET, cls={'R': 5, 'Q': 1}, rbuf={3: 1, 6: 2}, c={1: 1, 2: 2, 3: 1},
                          load=[1.0, 2.0], ascale=0.7, mix=0.1, lines=(50, 90), rows=0.2,
                          cap={INF: 1}, dt_inf=0.9, ops={'sim1': 40, 'clear': 0.05, 'copy': 0.05}, maxa={INF: 5, 12: 1},
                          agents={'R': {'R': 1}, 'Q': {'R': 1}}, types=[1, 1, 2],
                          shapes={'ring': 3, 'loops': 3, 'random': 3}),
    # few agents that come back to the same queues while collection goes on and off
    'resource-rows': dict(R_NET, cls={'R': 5, 'Q': 1}, agents={'R': {'R': 1}, 'Q': {'R': 1}}, mix=0, types=[1, 1, 2],
                          lines=(50, 90), rows=0.6, coll=0.7, get=0.15, cap={INF: 1, 3: 2}, dt_inf=1.0, load=[.5, 1.0],
                          ops={'sim1': 24, 'coll': 6, 'clear': 0.05, 'copy': 0.05, 'cleardata': 0.2},
                          shapes={'ring': 4, 'loops': 4, 'random': 2}),
    'resource-rs': dict(R_NET, lines=(25, 60), bas=0.0, cap={INF: 1}, ops={'sim1': 6, 'simn': 4}),
    'info': dict(I_NET, lines=(25, 60), ops={'sim1': 16}),
    'info-tie': dict(I_NET, grid=1.0, lines=(25, 60), ops={'sim1': 16}),
}
