from .container import history

BOUNDS = {
    'quick': 'all histories of the listed skeletons (up to 4 operations, 8 symbolic unbounded names), any of the '
             'operations rejected or accepted; directed and undirected',
    'thorough': 'as quick, up to 5 operations'}
OUTSIDE = 'longer histories; unhashable names'

Q = ['NN', 'EN', 'EE', 'EEE', 'EED', 'EEX', 'EX', 'ED', 'XN', 'EXX', 'EDD', 'EXE', 'EDE', 'NED', 'EDX',
     'EEEE', 'EEED', 'EEEX', 'EEXX', 'EEDD', 'EDEE', 'EXEE', 'NEDN', 'EEXE', 'EEDE']
T = ['EEEXE', 'EEEDE', 'EEXXE', 'EEEEX', 'EEEED']


def scenarios(tier):
    ops = Q + (T if tier == 'thorough' else [])
    return [(history, dict(directed=d, ops=o, focus='reject')) for o in ops for d in (True, False)]
