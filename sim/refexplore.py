'''
Exact exploration by the reference model alone (no merging, no hylaa code): what is reachable, and is an error reachable.
'''

import collections

from sim import ref
from sim.monitor import MAX_SIZE

Node = collections.namedtuple('Node', ['mode', 'total', 'k', 'ref', 'certain', 'prev', 'trans'])
# prev: index of the node before, or None; trans: transition taken to get here (None: a time step or an initial set)

class Explored:
    'result of an exploration'

    def __init__(self):
        self.nodes = []            # all explored sets
        self.err_certain = False   # an error mode is reached beyond doubt
        self.err_possible = False
        self.err_first = None      # smallest total step of a certain error
        self.complete = True       # False: cut off by the budget

def explore(case, max_sets=250):
    'explore; sets whose emptiness is too close to call are followed, but marked as not certain'

    from sim.world import ref_init

    h, N = case['h'], case['N']
    s = case['set']
    mats = [(None, None) if m['A'] is None else ref.zoh(m['A'], m.get('B'), h) for m in case['modes']]
    rv = Explored()
    todo = collections.deque()
    count = 0

    def limits(t):
        'guard rows, perhaps strengthened'

        rows, rhs = list(t['G']), list(t['g'])
        to = case['modes'][t['to']]

        if s['strengthen'] and t['from'] != t['to'] and t['R'] is None:
            rows = rows + list(to['inv'])
            rhs = rhs + list(to['invr'])

        return rows, rhs

    guards = [limits(t) for t in case['trans']]

    def big(r):
        'too large for the tolerances?'

        for i in range(r.dims):
            v = [0.0] * r.dims
            v[i] = 1.0
            a = r.support(v)
            v[i] = -1.0
            b = r.support(v)

            if a is not None and b is not None and max(a, b) > MAX_SIZE:
                return True

        return False

    def follow(mode, cur, total, certain, index):
        'discrete successors'

        for ti, t in enumerate(case['trans']):
            if t['from'] != mode:
                continue

            g = cur.intersect(*guards[ti])
            f = g.feasible()

            if f is False:
                continue

            cert = certain and f is True

            if case['modes'][t['to']]['A'] is None:
                rv.err_possible = True

                if cert:
                    rv.err_certain = True
                    rv.err_first = total if rv.err_first is None else min(rv.err_first, total)
                continue

            todo.append((t['to'], g.reset(t['R'], t['M'], t['C'], t['r']), total, cert, index, ti))

    for i in case['init']:
        if case['modes'][i['mode']]['A'] is not None:
            todo.append((i['mode'], ref_init(i), 0, True, None, None))

    while todo:
        mode, cur, total, certain, prev, trans = todo.popleft()
        m = case['modes'][mode]
        cur = cur.intersect(m['inv'], m['invr'])
        f = cur.feasible()

        if f is False:
            continue

        certain = certain and f is True
        k = 0

        while True:
            count += 1

            if count > max_sets or big(cur):
                rv.complete = False
                return rv

            rv.nodes.append(Node(mode, total + k, k, cur, certain, prev, trans))
            prev, trans = len(rv.nodes) - 1, None

            if k > 0 or s['urgent']:
                follow(mode, cur, total + k, certain, prev)

            if total + k >= N:
                break

            nxt = cur.intersect(m['inv'], m['invr'])
            f = nxt.feasible()

            if f is False:
                break

            certain = certain and f is True
            cur = nxt.step(*mats[mode], m.get('Uc'), m.get('Ur')) if mats[mode][1] is not None else nxt.step(mats[mode][0])
            k += 1

    return rv

def path_to(explored, index):
    'nodes from an initial set to the one with the passed-in index'

    rv = []

    while index is not None:
        rv.append(explored.nodes[index])
        index = rv[-1].prev

    return rv[::-1]

def execution(explored, index, rng):
    """a concrete execution ending in the passed-in node: list of (node, state), or None

    all sets on a path share the columns of the last one, so a point of the last one determines the states before
    """

    path = path_to(explored, index)
    last = path[-1].ref
    obj = [rng.choice([-1.0, -0.5, 0.0, 0.5, 1.0]) for _ in range(last.M.shape[1])]
    st, _, x = last._lp(-ref.DELTA).maximize(obj)

    if st != 'opt':
        return None

    return [(n, n.ref.M.dot(x[:n.ref.M.shape[1]]) + n.ref.m) for n in path]
