'''
Fault plans which must be invisible: they are mixed into the worlds of every check ("swarm").
'''


from sim.seams import SIM

CLOCKS = ('normal', 'stall', 'fast', 'jumps', 'backwards')

def log_index(rng, top=600):
    'a position, small ones more often'

    return int(top ** rng.random()) - 1

def benign(rng, chance=0.5):
    '''a list of faults the analysis has to mask: lost bases, one failing solver call, one wrong "infeasible" where a
    solution is required, garbage collections, odd clocks'''

    rv = []

    if rng.random() >= chance:
        return rv

    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 12)):
            rv.append({'t': 'basis', 'at': log_index(rng)})

    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            # positions far apart: two failures in a row are not a single failure
            rv.append({'t': 'lp', 'at': 5 * log_index(rng, 150), 'code': rng.choice(['ESING', 'ECOND', 'EFAIL', 'EITLIM',
                                                                                      'ETMLIM', 'EBADB'])})

    if rng.random() < 0.25:
        rv.append({'t': 'nofeas', 'at': log_index(rng, 100)})

    if rng.random() < 0.25:
        rv.append({'t': 'gc', 'every': rng.choice([1, 3, 10])})

    if rng.random() < 0.5:
        rv.append({'t': 'clock', 'kind': rng.choice(CLOCKS)})

    return rv

def clock_plan(kind):
    'function from read index to increment'

    if kind == 'stall':
        return lambda i: 0.0
    if kind == 'fast':
        return lambda i: 37.5
    if kind == 'jumps':
        return lambda i: 0.001 if (i * 7919) % 11 else 1e5
    if kind == 'backwards':
        return lambda i: 0.5 if (i * 7919) % 5 else -40.0

    return None

def arm(faults):
    'put faults into the seams'

    for f in faults:
        if f['t'] == 'basis':
            SIM.std_basis.add(f['at'])
        elif f['t'] == 'lp':
            SIM.lp_faults[f['at']] = {k: v for k, v in f.items() if k in ('code', 'status', 'exc')}
        elif f['t'] == 'nofeas':
            SIM.req_faults[f['at']] = f.get('tries', 1)
        elif f['t'] == 'gc':
            SIM.gc_every = f['every']
        elif f['t'] == 'clock':
            SIM.clock_plan = clock_plan(f['kind'])
            SIM.fire('clock_' + f['kind'])

__all__ = ['benign', 'arm', 'clock_plan', 'log_index', 'CLOCKS']
