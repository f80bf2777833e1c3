'''
Random worlds: hybrid automata, initial sets and settings, as plain json.

Guards and invariants are placed where a nominal trajectory crosses them, so that transitions happen, partially,
over several steps.
'''

import numpy as np

from sim import ref

STEPS = [0.1, 0.2, 0.25, 0.5, 1.0]

def pick(rng, weighted):
    'weighted choice from a list of (value, weight)'

    total = sum(w for _, w in weighted)
    x = rng.random() * total

    for val, w in weighted:
        x -= w

        if x < 0:
            return val

    return weighted[-1][0]

def rnd(rng, lo, hi, digits=2):
    'a rounded float'

    return round(rng.uniform(lo, hi), digits)

def rand_dir(rng, n):
    'a small direction'

    if n == 1:
        return [rng.choice([1.0, -1.0])]

    if rng.random() < 0.65:
        row = [0.0] * n
        row[rng.randrange(n)] = rng.choice([1.0, -1.0])
        return row

    while True:
        row = [float(rng.choice([-2, -1, -0.5, 0, 0.5, 1, 2])) for _ in range(n)]

        if any(row):
            return row

def make_a(rng, n, kind, h):
    'dynamics matrix'

    A = np.zeros((n, n))

    if kind == 'zero':
        return A

    if kind == 'rot' and n >= 2:
        w = rng.choice([0.5, 1.0, -1.0, 2.0]) * min(1.0, 0.5 / h)
        A[0, 1], A[1, 0] = w, -w

        for i in range(n):
            A[i, i] = rng.choice([0, -0.1, -0.5, 0.1])

        if n > 2:
            A[2, 0] = rng.choice([0, 1, -0.5])

        return A

    if kind == 'clock' and n >= 2:
        # last is constant, the one before counts it
        A[n - 2, n - 1] = rng.choice([1.0, 1.0, 1.0, 2.0, -1.0])

        for i in range(n - 2):
            A[i, n - 1] = rng.choice([0, 1.0, -1.0, 0.5])
            A[i, i] = rng.choice([0, 0, -0.5])

        return A

    if kind == 'int' and n >= 2:
        for i in range(n - 1):
            A[i, i + 1] = rng.choice([1.0, -1.0, 0.5])

        return A

    for i in range(n):
        for j in range(n):
            if rng.random() < 0.6:
                A[i, j] = rng.choice([-1, -0.5, -0.25, 0.25, 0.5, 1])

    if kind == 'stable':
        A -= np.eye(n) * 1.0

    norm = np.abs(A).sum(axis=1).max()

    if norm * h > 1.0:
        A = np.round(A / (norm * h), 3)

    return A

def box_rows(bounds):
    'A x <= b rows of a box'

    rows, rhs = [], []

    for i, (lo, hi) in enumerate(bounds):
        r = [0.0] * len(bounds)
        r[i] = 1.0
        rows.append(r)
        rhs.append(hi)
        rows.append([-x for x in r])
        rhs.append(-lo)

    return rows, rhs

def rand_poly(rng, k, scale=1.0):
    'a bounded polytope in k variables: box, perhaps with a cut'

    bounds = []

    for _ in range(k):
        lo = rnd(rng, -scale, scale * 0.5)
        wide = round(rng.choice([0.05, 0.2, 0.5, 1.0]) * scale, 3)

        if rng.random() < 0.2: # one-sided
            lo = rng.choice([0.0, -wide])

        bounds.append((lo, round(lo + wide, 3)))

    rows, rhs = box_rows(bounds)

    if rng.random() < 0.3 and k > 1:
        d = rand_dir(rng, k)
        mid = sum(x * (lo + hi) / 2 for x, (lo, hi) in zip(d, bounds))
        rows.append(d)
        rhs.append(round(mid + 0.1 * scale, 3))

    perm = list(range(len(rows)))
    rng.shuffle(perm)
    return [rows[i] for i in perm], [rhs[i] for i in perm]

DEFAULT = dict(dims=((1, 2), (2, 4), (3, 3), (4, 1)), max_modes=4, inputs=0.25, dimchange=0.12, clock=0.12, zero=0.1,
               inv=0.7, error=0.75, resets=0.5, mink=0.2, urgent=0.15, eq_guard=0.05, max_steps=11, self_loop=0.15,
               multi_init=0.25, width=(0.0, 0.1, 0.3, 0.6, 1.0), affine=0.25, const_input=0.0, true_guard=0.06)

def random_case(rng, **over):
    'make a case; over: overrides for DEFAULT'

    p = dict(DEFAULT)
    p.update(over)

    h = rng.choice(STEPS)
    N = rng.randint(3, p['max_steps'])
    nmodes = rng.randint(1, p['max_modes'])
    n = pick(rng, p['dims'])
    modes, trans = [], []
    dims = []

    for i in range(nmodes):
        d = n if rng.random() >= p['dimchange'] else pick(rng, p['dims'])
        dims.append(d)

        kind = pick(rng, (('general', 3), ('rot', 3), ('stable', 2), ('int', 2)))

        if rng.random() < p['clock']:
            kind = 'clock'
        elif rng.random() < p['zero']:
            kind = 'zero'

        if kind in ('rot', 'clock', 'int') and d == 1:
            kind = rng.choice(['general', 'stable'])

        A = make_a(rng, d, kind, h)
        m = {'name': f'm{i}', 'A': A.tolist(), 'B': None, 'Uc': None, 'Ur': None, 'inv': [], 'invr': [], 'kind': kind}

        if rng.random() < p['inputs']:
            k = pick(rng, ((1, 3), (2, 2)))
            B = [[float(rng.choice([0, 1, 0.5, -1])) for _ in range(k)] for _ in range(d)]

            for c in range(k): # no useless columns
                if not any(B[r][c] for r in range(d)):
                    B[rng.randrange(d)][c] = 1.0

            m['B'] = B
            m['Uc'], m['Ur'] = rand_poly(rng, k, rng.choice([0.2, 0.5, 1.0]))

        modes.append(m)

    # mode names in an order unrelated to their creation
    names = [f'm{i}' for i in range(nmodes)]
    rng.shuffle(names)

    for m, name in zip(modes, names):
        m['name'] = name

    errors = []

    if rng.random() < p['error']:
        errors.append(len(modes))
        modes.append({'name': 'error', 'A': None, 'inv': [], 'invr': []})

        if rng.random() < 0.15:
            errors.append(len(modes))
            modes.append({'name': 'bad', 'A': None, 'inv': [], 'invr': []})

    # nominal trajectory through the modes
    width = rng.choice(p['width'])
    c = np.array([rnd(rng, -3, 3, 1) for _ in range(dims[0])])

    if modes[0]['kind'] == 'clock':
        c[-1] = 1.0
        c[-2] = rng.choice([0.0, 0.0, rnd(rng, -1, 1, 1)])

    start = c.copy()
    rad = np.array([0.0 if rng.random() < 0.15 else rnd(rng, 0, width + 0.01, 3) for _ in range(dims[0])])

    if modes[0]['kind'] == 'clock' and rng.random() < 0.8:
        rad[-1] = 0
        if rng.random() < 0.8:
            rad[-2] = 0

    cur = 0
    chain = list(range(nmodes))

    for hop, mi in enumerate(chain):
        m = modes[mi]
        A = np.array(m['A'])
        d = dims[mi]
        phi = ref.expm(A * h)
        gam = None

        if m['B'] is not None:
            _, gam = ref.zoh(A, m['B'], h)
            umid = chebyshev_mid(m['Uc'], m['Ur'])

        left = max(2, N - cur)
        pts = [c]

        for _ in range(left):
            nxt = phi.dot(pts[-1])

            if gam is not None:
                nxt = nxt + gam.dot(umid)

            pts.append(nxt)

        spread = width + 0.02 + (0.3 if gam is not None else 0.0)
        kc = rng.randint(1, min(len(pts) - 1, max(2, left // 2 + 1)))

        def place(direction, k, bias=0.0):
            'a threshold crossed by the nominal trajectory around step k'

            a, b = float(np.dot(direction, pts[k - 1])), float(np.dot(direction, pts[k]))
            t = rng.random()
            return round(a + t * (b - a) + bias * spread * rng.uniform(-1, 1), rng.choice([1, 2, 3]))

        # outgoing transitions
        ntrans = pick(rng, ((1, 4), (2, 4), (3, 1)))
        next_mode = chain[hop + 1] if hop + 1 < len(chain) else None
        main = None

        for j in range(ntrans):
            if j == 0 and next_mode is not None:
                to = next_mode
            else:
                r = rng.random()

                if errors and r < 0.5:
                    to = rng.choice(errors)
                elif r < 0.5 + p['self_loop']:
                    to = mi
                else:
                    to = rng.choice(chain)

            k = kc if j == 0 else rng.randint(1, len(pts) - 1)
            t = make_transition(rng, p, mi, to, modes, dims, pts, k, place, m)
            trans.append(t)

            if j == 0 and next_mode is not None:
                main = t

        # invariant
        if rng.random() < p['inv']:
            for _ in range(pick(rng, ((1, 5), (2, 3), (3, 1)))):
                if m['kind'] == 'clock':
                    row = [0.0] * d
                    row[-2] = 1.0 if A[d - 2, d - 1] * c[-1] > 0 else -1.0
                else:
                    row = rand_dir(rng, d)

                k = rng.randint(1, len(pts) - 1)

                # mostly cutting along the way: the value is growing
                if np.dot(row, pts[k]) < np.dot(row, pts[0]) and rng.random() < 0.8:
                    row = [-x for x in row]

                val = place(row, k, 0.7)
                m['inv'].append(row)
                m['invr'].append(val)

        # opposite of a guard as the invariant (stay until the guard is true)
        outs = [t for t in trans if t['from'] == mi and t['G']]

        if outs and rng.random() < (0.8 if m['kind'] == 'clock' else 0.25):
            t = outs[0]
            r = rng.randrange(len(t['g']))
            m['inv'].append([-x for x in t['G'][r]])
            m['invr'].append(-t['g'][r])

        if main is not None: # follow the main transition
            c = pts[kc]
            cur += kc

            if main['R'] is not None:
                c = np.array(main['R']).dot(c)

            if main['M'] is not None:
                c = c + np.array(main['M']).dot(chebyshev_mid(main['C'], main['r']))

            if len(c) != dims[next_mode]:
                c = np.zeros(dims[next_mode])

    # extra self-made structure: shared affine term
    init = [make_init(rng, 0, start, rad)]

    if rng.random() < p['multi_init']:
        for _ in range(pick(rng, ((1, 3), (2, 1)))):
            if rng.random() < 0.6:
                off = start + np.array([rnd(rng, -1, 1, 1) * (width + 0.2) for _ in range(len(start))])

                if modes[0]['kind'] == 'clock':
                    off[-1] = start[-1]

                init.append(make_init(rng, 0, off, rad))
            else:
                mi = rng.randrange(nmodes)
                cc = np.array([rnd(rng, -2, 2, 1) for _ in range(dims[mi])])

                if modes[mi]['kind'] == 'clock':
                    cc[-1] = 1.0

                init.append(make_init(rng, mi, cc, np.array([width * 0.5] * dims[mi])))

    settings = {'urgent': rng.random() < p['urgent'], 'strengthen': rng.random() < 0.6, 'tt': rng.random() < 0.3,
                'approx': 0, 'skip0': rng.random() < 0.6, 'stop_agg': False, 'stop_con': rng.random() < 0.3, 'ce': True,
                'stdout': rng.choice([0, 0, 1, 2, 3]), 'seed': rng.randrange(3)}

    strat = {'kind': 'sim', 'group': 'none', 'agg': 'box', 'add_guard': rng.random() < 0.6, 'deagg': False,
             'pref': rng.randrange(3), 'pop': rng.randrange(3)}

    sched = [rng.randrange(1000) for _ in range(rng.choice([0, 5, 20, 40]))]

    for m in modes:
        m.pop('kind', None)

    return {'h': h, 'N': N, 'modes': modes, 'trans': trans, 'init': init, 'set': settings, 'strat': strat,
            'sched': sched, 'faults': []}

def chebyshev_mid(C, r):
    'some inner point of a polytope: mean of its extreme points in the axis directions'

    C = np.array(C, dtype=float)
    s = ref.RefSet.constraints(C, r)
    pts = []

    for i in range(C.shape[1]):
        for sign in (1, -1):
            v = np.zeros(C.shape[1])
            v[i] = sign
            pts.append(s.point(v))

    return sum(pts) / len(pts)

def make_init(rng, mode, center, rad):
    'an initial set description'

    kind = pick(rng, (('box', 5), ('con', 3), ('zono', 3)))
    n = len(center)
    bounds = [(float(round(c - r, 4)), float(round(c + r, 4))) for c, r in zip(center, rad)]

    if kind == 'con':
        rows, rhs = box_rows(bounds)

        if n > 1 and rng.random() < 0.5:
            d = rand_dir(rng, n)
            rows.append(d)
            rhs.append(round(float(np.dot(d, center)) + 0.05, 3))

        perm = list(range(len(rows)))
        rng.shuffle(perm)
        return {'mode': mode, 'kind': 'con', 'A': [rows[i] for i in perm], 'b': [rhs[i] for i in perm]}

    if kind == 'zono':
        k = rng.randint(1, n + 1)
        gens = []

        for _ in range(k):
            gens.append([float(round(rng.uniform(-1, 1) * r, 3)) for r in rad])

        return {'mode': mode, 'kind': 'zono', 'c': [float(x) for x in center], 'gens': gens}

    return {'mode': mode, 'kind': 'box', 'b': bounds}

def make_transition(rng, p, mi, to, modes, dims, pts, k, place, m):
    'a transition near step k of the nominal points'

    d = dims[mi]
    rows, rhs = [], []

    if rng.random() >= p['true_guard']:
        if m['kind'] == 'clock':
            row = [0.0] * d
            row[-2] = -1.0 if pts[1][-2] > pts[0][-2] else 1.0

            if rng.random() < 0.6: # exactly at a step
                val = round(float(np.dot(row, pts[k])), 6)
            else:
                val = place(row, k)
        else:
            row = rand_dir(rng, d)

            if np.dot(row, pts[k]) > np.dot(row, pts[0]) and rng.random() < 0.8: # becomes true along the way
                row = [-x for x in row]

            val = place(row, k, 1.0)

        rows.append([x + 0.0 for x in row])
        rhs.append(val)

        r = rng.random()

        if r < p['eq_guard']:
            rows.append([-x + 0.0 for x in row])
            rhs.append(-val)
        elif r < 0.35: # a band
            rows.append([-x + 0.0 for x in row])
            rhs.append(round(-val + rng.choice([0.1, 0.5, 1.0, 2.0]), 3))
        elif r < 0.6: # another condition
            row2 = rand_dir(rng, d)
            rows.append(row2)
            rhs.append(round(float(np.dot(row2, pts[k])) + rng.uniform(-0.2, 0.8), 2))

    if len(rows) > 1 and rng.random() < 0.5:
        rows.reverse()
        rhs.reverse()

    t = {'from': mi, 'to': to, 'G': rows, 'g': rhs, 'R': None, 'M': None, 'C': None, 'r': None}
    is_err = modes[to]['A'] is None if to < len(modes) else True
    td = d if to >= len(dims) else dims[to]

    if td != d or rng.random() < p['resets']:
        kind = pick(rng, (('scale', 3), ('random', 2), ('zeroone', 2), ('perm', 1), ('ident', 1)))
        R = np.zeros((td, d))

        for i in range(min(td, d)):
            R[i, i] = 1.0

        if kind == 'scale':
            for i in range(min(td, d)):
                R[i, i] = rng.choice([0.5, 1, -1, 0.9, 2])
        elif kind == 'random':
            R = np.array([[rng.choice([0, 0, 1, -0.5, 0.5]) for _ in range(d)] for _ in range(td)], dtype=float)
        elif kind == 'zeroone':
            R[rng.randrange(td)] = 0.0
        elif kind == 'perm':
            R = R[::-1].copy()

        if m['kind'] == 'clock' and td == d:
            R[-1] = 0
            R[-1, -1] = 1

        t['R'] = R.tolist()

        if rng.random() < p['mink']:
            same = rng.random() < 0.4
            w = td if same else rng.randint(1, 2)
            t['C'], t['r'] = rand_poly(rng, w, 0.5)

            if same and rng.random() < 0.5:
                t['M'] = np.eye(td).tolist()
                t['Mnone'] = True # the identity is assumed
            else:
                t['M'] = [[float(rng.choice([0, 1, -1, 0.5])) for _ in range(w)] for _ in range(td)]

    del is_err
    return t

def pad_modes(rng, case, count):
    'unused modes before all others, so that numbers of modes have several digits'

    n = rng.randint(1, 2)

    for k in range(count):
        case['modes'].insert(0, {'name': f'unused{k}', 'A': make_a(rng, n, 'stable', case['h']).tolist(), 'B': None, 'Uc': None,
                                 'Ur': None, 'inv': [], 'invr': []})

    for s in case['init']:
        s['mode'] += count

    for t in case['trans']:
        t['from'] += count
        t['to'] += count

def widen(rng, case, count):
    'more variables in every mode, which decay; mostly before the others, so that their numbers have several digits'

    front = rng.random() < 0.7
    rate = rng.choice([0.0, -0.1, -0.5])
    pad = [0.0] * count

    def row(r):
        'pad a row'
        return pad + list(r) if front else list(r) + pad

    def block(mat, diag):
        'a block matrix'

        mat = np.array(mat, dtype=float)
        rv = np.zeros((mat.shape[0] + count, mat.shape[1] + count))
        i = count if front else 0
        j = 0 if front else mat.shape
        rv[i:i + mat.shape[0], i:i + mat.shape[1]] = mat

        for k in range(count):
            if front:
                rv[k, k] = diag
            else:
                rv[j[0] + k, j[1] + k] = diag

        return rv.tolist()

    def tall(mat):
        'pad a column of rows'

        zeros = [[0.0] * len(mat[0]) for _ in range(count)]
        return zeros + [list(r) for r in mat] if front else [list(r) for r in mat] + zeros

    for t in case['trans']:
        t['G'] = [row(r) for r in t['G']]

        if t['R'] is not None:
            t['R'] = block(t['R'], 1.0)

        if t['M'] is not None:
            if t.get('Mnone'):
                t.pop('Mnone')

            t['M'] = tall(t['M'])

    for m in case['modes']:
        if m['A'] is not None:
            m['A'] = block(m['A'], rate)
            m['inv'] = [row(r) for r in m['inv']]

            if m.get('B') is not None:
                m['B'] = tall(m['B'])

    for s in case['init']:
        bounds = [[0.0, 0.0] if rng.random() < 0.8 else [-0.1, 0.1] for _ in range(count)]

        if s['kind'] == 'box':
            s['b'] = bounds + list(s['b']) if front else list(s['b']) + bounds
        elif s['kind'] == 'con':
            s['A'] = [row(r) for r in s['A']]

            for i, (lo, hi) in enumerate(bounds):
                unit = [0.0] * len(s['A'][0])
                unit[i if front else len(unit) - count + i] = 1.0
                s['A'] += [unit, [-x + 0.0 for x in unit]]
                s['b'] += [hi, -lo]
        else:
            s['c'] = row(s['c'])
            s['gens'] = [row(g) for g in s['gens']]

def many_inputs(rng, case, count):
    'many small inputs in some mode'

    m = rng.choice([m for m in case['modes'] if m['A'] is not None])
    n = len(m['A'])
    m['B'] = [[float(rng.choice([0, 0, 0, 1, 0.5, -1])) for _ in range(count)] for _ in range(n)]

    for c in range(count):
        if not any(r[c] for r in m['B']):
            m['B'][rng.randrange(n)][c] = 1.0

    bounds = []

    for _ in range(count):
        lo = rnd(rng, -0.2, 0.1)
        bounds.append((lo, round(lo + rng.choice([0.02, 0.1]), 3)))

    m['Uc'], m['Ur'] = box_rows(bounds)

def vary(rng, case, chance=0.07):
    'sometimes more modes, inputs or variables than usual, so that their numbers have several digits'

    r = rng.random() / chance

    if r < 0.4:
        pad_modes(rng, case, rng.randint(9, 12))
    elif r < 0.7 and case['set']['approx'] == 0:
        many_inputs(rng, case, rng.randint(11, 13))
    elif 0.7 <= r < 1:
        widen(rng, case, rng.randint(7, 11))
    elif 1 <= r < 1.4:
        lengthen(case, rng.choice([4, 5, 8]))

def lengthen(case, factor):
    'the same time in many small steps'

    case['N'] *= factor
    case['h'] /= factor

def mixed_case(rng, **over):
    'a world which uses any mixture of features'

    p = dict(true_guard=0.1, self_loop=0.25, multi_init=0.35, inputs=rng.choice([0.1, 0.4]), mink=0.25)
    p.update(over)
    case = random_case(rng, **p)
    s, st = case['set'], case['strat']
    s['stop_con'] = rng.random() < 0.3
    s['stop_agg'] = rng.random() < 0.1
    s['approx'] = rng.choice([0] * 10 + [1, 1, 2])

    if s['approx'] == 2: # without inputs: the bloating would make the steps much more expensive
        for m in case['modes']:
            if m['A'] is not None and m['B'] is not None:
                m['B'] = m['Uc'] = m['Ur'] = None

    st['kind'] = rng.choice(['sim', 'sim', 'stock', 'stock', 'unagg'])

    if st['kind'] != 'unagg' and rng.random() < 0.6:
        st['group'] = rng.choice(['path', 'path', 'mode'])
        st['agg'] = rng.choice(['box', 'arnoldi', 'chull', 'mix'])
        st['deagg'] = rng.random() < 0.6
        s['tt'] = s['tt'] and rng.random() < 0.2

    vary(rng, case, 0.03)

    return case

def mode_dims(case, i):
    'number of variables of a mode'

    if case['modes'][i]['A'] is not None:
        return len(case['modes'][i]['A'])

    return None

def random_plot(rng, case, mode=None, store=None, allow_dir=True):
    'plot settings'

    dims = {m['name']: len(m['A']) for m in case['modes'] if m['A'] is not None}
    low = min(dims.values())
    same = len(set(dims.values())) == 1

    def one(n):
        'a direction for n variables'

        if allow_dir and rng.random() < 0.3:
            return [float(rng.choice([-1, 0, 0.5, 1, 2])) for _ in range(n - 1)] + [1.0]

        return rng.randrange(n)

    def spec():
        'number, direction or dict'

        if rng.random() < 0.2 or not same and rng.random() < 0.3:
            return {name: one(n) for name, n in dims.items()}
        if same:
            return one(low)

        return rng.randrange(low)

    count = pick(rng, ((1, 5), (2, 3), (3, 1)))
    rv = []

    for _ in range(count):
        r = rng.random()

        if r < 0.35:
            rv.append([None, spec()])
        elif r < 0.45:
            rv.append([spec(), None])
        else:
            rv.append([spec(), spec()])

    p = {'mode': rng.randrange(5) if mode is None else mode, 'dims': rv,
         'store': rng.random() < 0.6 if store is None else store, 'lists': rng.random() < 0.2,
         'stride': rng.choice([1, 1, 1, 2, 3, 7]), 'markers': rng.random() < 0.7, 'grid': rng.random() < 0.5,
         'skip': rng.choice([0, 0, 1, 3]), 'extra': rng.choice([0, 1, 3]), 'pause': rng.choice([0, 1, 3]),
         'show_frame': rng.random() < 0.5}

    if rng.random() < 0.3:
        p['limits'] = [-3, 3, -3, 3]

    if rng.random() < 0.15:
        p['marks'] = [[[[rnd(rng, -2, 2, 2) for _ in range(2)] for _ in range(2)] for _ in range(rng.choice([1, 1, 2]))]
                      for _ in range(rng.choice([1, count]))]

    return p

def random_events(rng, top=30):
    'what the user does'

    rv = []

    for _ in range(rng.choice([0, 2, 8, top])):
        kind = rng.choice(['next', 'next', 'step', 'step', 'nothing', 'nothing', 'click', 'resize', 'wait'])
        arg = 0

        if kind == 'click':
            arg = [rng.randrange(3), round(rng.random(), 2), round(rng.random(), 2)]
        elif kind == 'wait':
            arg = rng.choice([0.5, 100.0])

        rv.append([kind, arg])

    return rv

def clocks_case(rng, max_steps=9):
    'modes with two clocks, guards with conditions on both and invariants which end with one of them, or later'

    h = rng.choice([0.1, 0.2, 0.25, 0.5, 1.0])
    N = rng.randint(3, max_steps)
    nmodes = rng.choice([1, 2, 2, 3])
    n = 4
    modes, trans = [], []

    for i in range(nmodes):
        rx, ry = rng.choice([1.0, 1.0, -1.0, 2.0]), rng.choice([1.0, 1.0, 0.5, 0.0, -1.0])
        A = [[0.0, 0.0, 0.0, rng.choice([0.0, 1.0, -0.5])], [0.0, 0.0, 0.0, rx], [0.0, 0.0, 0.0, ry], [0.0] * n]

        if rng.random() < 0.4:
            A[0] = [rng.choice([0.0, -1.0, 0.3]), rng.choice([0.0, 0.5]), rng.choice([0.0, -0.5]), 0.0]

        modes.append({'name': f'm{i}', 'A': A, 'B': None, 'Uc': None, 'Ur': None, 'inv': [], 'invr': []})

    modes.append({'name': 'error', 'A': None, 'inv': [], 'invr': []})
    start = [rng.choice([0.0, 0.0, rnd(rng, -1, 1, 1)]) for _ in range(3)] + [1.0]
    cur = list(start)

    for i, m in enumerate(modes[:-1]):
        A = m['A']
        used = 0

        for j in range(rng.choice([1, 2, 2, 3])):
            to = i + 1 if j == 0 and i + 1 < nmodes else rng.choice([nmodes, nmodes, rng.randrange(nmodes)])
            at = rng.randint(1, max(2, N - 1))
            G, g = [], []

            for v in rng.choice([[1], [2], [1, 2], [1, 2], [2, 1], [1, 0], [2, 1, 0]]):
                rate = A[v][3]
                sign = -1.0 if rate >= 0 else 1.0

                if rng.random() < 0.1:
                    sign = -sign

                when = at if v == rng.choice([1, 2]) else rng.randint(0, N)
                val = cur[v] + rate * when * h + rng.choice([0.0, 0.0, 0.3, -0.3]) * h
                row = [0.0] * n
                row[v] = sign
                G.append(row)
                g.append(round(sign * val, 6))

            R = None

            if rng.random() < 0.35:
                R = [[1.0 if r == c else 0.0 for c in range(n)] for r in range(n)]
                R[rng.choice([1, 1, 2])] = [0.0] * n

            trans.append({'from': i, 'to': to, 'G': G, 'g': g, 'R': R if to < nmodes else None, 'M': None, 'C': None, 'r': None})

            if rng.random() < (0.85 if j == 0 else 0.3): # stay until one of the conditions is met
                r = rng.randrange(len(g))
                m['inv'].append([-x for x in G[r]])
                m['invr'].append(-g[r])

                if rng.random() < 0.5: # another condition is the end of an invariant with a different bound
                    r = rng.randrange(len(g))
                    m['inv'].append([-x for x in G[r]])
                    m['invr'].append(round(-g[r] + rng.choice([0.5, 2, 6]) * h, 6))

                used = at

        cur = [cur[0]] + [cur[v] + A[v][3] * used * h for v in (1, 2)] + [1.0]

    init = []

    for _ in range(rng.choice([1, 1, 1, 2])):
        b = []

        for v in range(3):
            w = rng.choice([0.0, 0.0, 0.0, 0.3, 0.9, 1.7]) * h if v else rng.choice([0.0, 0.2, 0.5])
            b.append([round(start[v] - rng.choice([0.0, 0.5, 1.0]) * w, 6), 0.0])
            b[-1][1] = round(b[-1][0] + w, 6)

        b.append(rng.choice([[1.0, 1.0]] * 6 + [[0.5, 1.0], [0.0, 0.0]]))
        init.append({'mode': 0, 'kind': 'box', 'b': b})

    settings = {'urgent': rng.random() < 0.3, 'strengthen': rng.random() < 0.6, 'tt': rng.random() < 0.6,
                'approx': 0, 'skip0': rng.random() < 0.6, 'stop_agg': False, 'stop_con': rng.random() < 0.3, 'ce': True,
                'stdout': rng.choice([0, 0, 1, 2, 3]), 'seed': rng.randrange(3)}
    strat = {'kind': 'sim', 'group': 'none', 'agg': 'box', 'add_guard': rng.random() < 0.6, 'deagg': False,
             'pref': rng.randrange(3), 'pop': rng.randrange(3)}
    sched = [rng.randrange(1000) for _ in range(rng.choice([0, 5, 20]))]

    return {'h': h, 'N': N, 'modes': modes, 'trans': trans, 'init': init, 'set': settings, 'strat': strat,
            'sched': sched, 'faults': []}

def chain_case(rng):
    'modes one after the other, each left over several steps, and an error which merged sets reach more easily'

    h = rng.choice([0.25, 0.5, 1.0])
    nmodes = rng.choice([2, 3, 3, 3, 4])
    widths = [rng.randint(2, 3) for _ in range(nmodes)] # steps at which a mode may be left
    stay = [rng.randint(1, 2) for _ in range(nmodes)]
    n = 3
    modes, trans = [], []
    x = 0.0

    for i in range(nmodes):
        A = [[0.0, 0.0, 1.0], [0.0, 0.0, rng.choice([0.0, 1.0, 1.0, 0.5, -1.0]) if i < nmodes - 1 else 0.0], [0.0] * n]
        low = x + stay[i] * h
        high = round(low + (widths[i] - 0.5) * h, 6)
        last = i == nmodes - 1
        modes.append({'name': f'm{i}', 'A': A, 'B': None, 'Uc': None, 'Ur': None,
                      'inv': [] if last else [[1.0, 0.0, 0.0]], 'invr': [] if last else [high]})

        if not last:
            g = round(low - rng.choice([0.0, 0.0, 0.2]) * h, 6)
            R = [[1.0, 0.0, 0.0], [0.0, rng.choice([0.5, -1.0]), 0.0], [0.0, 0.0, 1.0]] if rng.random() < 0.2 else None
            trans.append({'from': i, 'to': i + 1, 'G': [[-1.0, 0.0, 0.0]], 'g': [-g], 'R': R, 'M': None, 'C': None, 'r': None})
            x = high

    modes.append({'name': 'error', 'A': None, 'inv': [], 'invr': []})
    y = round(rng.uniform(-1, sum(widths)) * h, 3)
    trans.append({'from': nmodes - 1, 'to': nmodes, 'G': [[-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, -1.0, 0.0]],
                  'g': [-round(x + rng.choice([0, 1, 2]) * h, 6), round(y + rng.choice([0.1, 0.3]) * h, 6),
                        -round(y - rng.choice([0.1, 0.3]) * h, 6)], 'R': None, 'M': None, 'C': None, 'r': None})

    if rng.random() < 0.3:
        i = rng.randrange(nmodes)
        trans.append(dict(trans[i], to=rng.choice([nmodes - 1, max(0, nmodes - 2), i])))

        if trans[-1]['to'] == nmodes:
            trans.pop()

    init = [{'mode': 0, 'kind': 'box', 'b': [[0.0, round(rng.choice([0.0, 0.1, 0.3]) * h, 6)],
                                             [0.0, round(rng.choice([0.0, 0.1, 0.3]) * h, 6)], [1.0, 1.0]]}
            for _ in range(rng.choice([1, 1, 1, 2]))]
    settings = {'urgent': rng.random() < 0.1, 'strengthen': rng.random() < 0.6, 'tt': False,
                'approx': 0, 'skip0': rng.random() < 0.6, 'stop_agg': False, 'stop_con': rng.random() < 0.2, 'ce': True,
                'stdout': rng.choice([0, 0, 1, 2, 3]), 'seed': rng.randrange(3)}
    strat = {'kind': rng.choice(['sim', 'stock']), 'group': rng.choice(['path', 'mode']),
             'agg': rng.choice(['box', 'box', 'arnoldi', 'chull', 'mix']), 'add_guard': rng.random() < 0.6, 'deagg': True,
             'pref': rng.randrange(3), 'pop': rng.randrange(3)}
    sched = [rng.randrange(1000) for _ in range(rng.choice([0, 5, 20]))]

    return {'h': h, 'N': rng.randint(8, 14), 'modes': modes, 'trans': trans, 'init': init, 'set': settings, 'strat': strat,
            'sched': sched, 'faults': []}
