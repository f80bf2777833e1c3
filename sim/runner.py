'''
python -m sim.runner PROP quick|thorough        explore; exit 0 (held) or 1 (VIOLATION line)
python -m sim.runner PROP replay FILE           run a replay file; exit 1 if it still violates
'''

import collections
import json
import os
import selectors
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# cases and wall-clock cap (seconds) per tier; a check module may override with COUNT / CAP
COUNT = {'quick': 1500, 'thorough': 60000}
CAP = {'quick': 150, 'thorough': 3000}

REAL = ['hylaa (all modules, unmodified)', 'GLPK through swiglpk', 'numpy', 'scipy', 'matplotlib objects (Agg)']
STUB = ['clock (time.perf_counter, time.time, time.monotonic, time.sleep)', 'standard output']

def env_for(index):
    'environment of a worker'

    env = dict(os.environ)
    env['PYTHONPATH'] = VERIF
    env['PYTHONHASHSEED'] = str(index + 1)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['MPLBACKEND'] = 'Agg'
    env['MPLCONFIGDIR'] = os.path.join(VERIF, 'evidence', '.mpl')
    env['TERM'] = 'dumb'

    for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[v] = '1'

    return env

def known_findings(prop):
    'digests of listed cases'

    rv = {}
    path = os.path.join(VERIF, 'known_findings.txt')

    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=' + prop + ' '):
                key, _, what = line[len('finding: property=' + prop + ' '):].partition(' :: ')
                rv[key.strip()] = what.strip()

    return rv

class Batch:
    'exploration of one property'

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        sys.path.insert(0, VERIF)
        self.conf = load_conf(prop)
        self.count = self.conf.get('COUNT', COUNT)[tier]
        self.cap = self.conf.get('CAP', CAP)[tier]
        self.workers = max(1, min(8, os.cpu_count() or 1, self.count))
        self.res = []
        self.violations = []
        self.harness = []
        self.fired = collections.Counter()
        self.sums = collections.Counter()
        self.maxes = {}
        self.scheds = set()
        self.digests = {}
        self.determinism = 0
        self.nondet = []
        self.samples = []
        self.skips = collections.Counter()
        self.nontrivial = set()
        self.evals = 0
        self.begun = {}
        self.dead = []
        self.timed_out = False

    def handle(self, worker, msg):
        'one message of a worker'

        if 'begin' in msg:
            self.begun[worker] = msg['begin']
            return

        if 'done' in msg:
            self.begun[worker] = 'done'
            return

        i = msg['i']
        key = (msg['case_digest'], msg['result_digest'], msg['kind'])

        if msg['kind'] != 'harness':
            if i in self.digests:
                self.determinism += 1

                if self.digests[i] != key:
                    self.nondet.append(i)
            self.digests.setdefault(i, key)

        if msg.get('again'):
            return

        if msg['kind'] == 'skip':
            self.skips[msg['msg']] += 1
            return

        if msg['kind'] == 'harness':
            self.harness.append(f"case {i}: {msg['msg']}")
            return

        self.evals += 1

        for k, v in (msg.get('fired') or {}).items():
            self.fired[k] += v

        if msg['kind'] == 'violation':
            self.violations.append(msg)
            return

        r = msg['res']

        if r.get('nontrivial'):
            self.nontrivial.add(msg['case_digest'])

        if 'sched' in r:
            self.scheds.add(json.dumps(r['sched']))

        for k, v in r.items():
            if isinstance(v, dict):
                for k2, v2 in v.items():
                    if isinstance(v2, (int, float)) and not isinstance(v2, bool):
                        self.sums[f'{k}.{k2}'] += v2
            elif isinstance(v, bool):
                self.sums[k] += int(v)
            elif k.startswith('max_'):
                self.maxes[k] = max(self.maxes.get(k, 0), v)
            elif isinstance(v, (int, float)):
                self.sums[k] += v

        if 'sim_steps' in r and 'h' in r:
            self.sums['simulated_time'] += r['sim_steps'] * r['h']

        if 'sample' in msg and len(self.samples) < 3:
            self.samples.append({'case_index': i, 'case': msg['sample'],
                                 'result': {k: v for k, v in r.items() if k not in ('sched',)}})

    def run(self):
        'run all workers; stops early when there are violations'

        start = time.monotonic()
        sel = selectors.DefaultSelector()
        procs = {}
        bufs = {}

        for idx in range(self.workers):
            r, w = os.pipe()
            err = open(os.path.join(VERIF, 'evidence', f'.{self.prop}.{idx}.err'), 'w')
            p = subprocess.Popen([sys.executable, '-m', 'sim.worker', self.prop, self.tier, str(self.seed), str(idx),
                                  str(self.workers), str(self.count), str(w)], cwd=VERIF, env=env_for(idx), pass_fds=[w],
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
            os.close(w)
            procs[r] = (idx, p)
            bufs[r] = b''
            sel.register(r, selectors.EVENT_READ)

        first_violation = None

        while sel.get_map():
            now = time.monotonic()

            if now - start > self.cap:
                self.timed_out = True
                break

            if self.violations and first_violation is None:
                first_violation = now

            if first_violation is not None and (now - first_violation > 10 or len(self.violations) >= 20):
                break

            for key, _ in sel.select(timeout=1.0):
                data = os.read(key.fd, 1 << 20)

                if not data:
                    sel.unregister(key.fd)
                    os.close(key.fd)
                    idx, p = procs[key.fd]
                    p.wait()

                    if self.begun.get(idx) != 'done':
                        self.dead.append((idx, p.returncode, self.begun.get(idx)))
                    continue

                bufs[key.fd] += data
                *lines, bufs[key.fd] = bufs[key.fd].split(b'\n')

                for line in lines:
                    self.handle(procs[key.fd][0], json.loads(line))

        for _, p in procs.values():
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()

        for idx in range(self.workers):
            path = os.path.join(VERIF, 'evidence', f'.{self.prop}.{idx}.err')
            text = open(path, errors='replace').read().strip()

            if self.dead and text:
                self.harness.append(f'worker {idx}: {text[-1500:]}')
            os.unlink(path)

        self.explore_s = time.monotonic() - start

    def write_evidence(self, wall, level, violations):
        'evidence file'

        cov = {
            'evaluations': self.evals,
            'distinct_nontrivial': len(self.nontrivial),
            'rule': self.conf['RULE'],
            'samples': self.samples,
            'cases_planned': self.count,
            'stopped_by_time_cap': self.timed_out,
            'runs_per_hour': round(self.evals / max(self.explore_s, 1e-6) * 3600),
            'seeds': f'case i of VERIF_SEED={self.seed} is generated from sha256(seed|property|i), i in 0..{self.count - 1}',
            'simulated_time': round(self.sums.get('simulated_time', 0.0), 3),
            'faults_injected': dict(sorted(self.fired.items())),
            'distinct_schedules': len(self.scheds),
            'totals': {k: round(v, 6) for k, v in sorted(self.sums.items())},
            'maxima': self.maxes,
            'skipped': dict(self.skips),
            'determinism_pairs_compared': self.determinism,
            'determinism_differences': self.nondet,
            'real_components': REAL,
            'stubbed_components': STUB + self.conf.get('STUBS', []),
        }

        data = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
                'assumptions': self.conf.get('ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': violations}

        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.prop + '.json')

        with open(path + '.tmp', 'w') as f:
            json.dump(data, f, indent=1, default=str)

        os.replace(path + '.tmp', path)

def load_conf(prop):
    'configuration of a check: sim/checks/conf.py'

    from sim.checks.conf import CONF
    return CONF[prop]

def replay(prop, path):
    'execute a replay file in this (fresh) process'

    sys.path.insert(0, VERIF)
    from sim import seams
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    os.dup2(devnull, 1)
    seams.install()
    from sim.executor import execute, load
    import hylaa.core # pylint: disable=unused-import

    mod = load(prop)

    if getattr(mod, 'prepare', None):
        mod.prepare()

    data = json.load(open(path))
    res = execute(mod, data['case'])
    os.dup2(keep, 1)
    print(json.dumps({k: v for k, v in res.items() if k not in ('case', 'res')}, indent=1))

    if res['kind'] == 'violation':
        same = 'same class' if res['cls'] == data['cls'] else f"recorded class was {data['cls']}"
        print(f"REPLAYED property={prop} ({same})")
        return 1

    return 0

def report(batch, msg):
    'minimise a violation, write the replay file, replay it in a fresh process'

    prop = batch.prop
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    name = f"{prop}-seed{batch.seed}-case{msg['i']}"
    raw = os.path.join(rdir, name + '.raw.json')
    out = os.path.join(rdir, name + '.json')
    data = {'property': prop, 'tier': batch.tier, 'seed': batch.seed, 'case_index': msg['i'], 'cls': msg['cls'],
            'msg': msg['msg'], 'case': msg['case']}

    with open(raw, 'w') as f:
        json.dump(data, f, indent=1)

    secs = 60 if batch.tier == 'quick' else 300

    try:
        subprocess.run([sys.executable, '-m', 'sim.shrink', prop, raw, out, str(secs)], cwd=VERIF, env=env_for(0),
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs + 180,
                       check=True)
    except (subprocess.SubprocessError, OSError):
        os.replace(raw, out)

    p = subprocess.run([sys.executable, '-m', 'sim.runner', prop, 'replay', out], cwd=VERIF, env=env_for(5),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400, check=False)

    if os.path.exists(raw):
        if p.returncode != 1: # the minimised case did not survive: keep the original
            os.replace(raw, out)
        else:
            os.unlink(raw)

    return out, json.load(open(out))

def main():
    'main'

    prop, mode = sys.argv[1], sys.argv[2]

    if mode == 'replay':
        sys.exit(replay(prop, sys.argv[3]))

    start = time.monotonic()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    batch = Batch(prop, mode, seed)
    print(f'{prop} {mode}: seed {seed}, {batch.count} cases, {batch.workers} workers', flush=True)
    batch.run()

    known = known_findings(prop)
    new = []

    for v in sorted(batch.violations, key=lambda v: v['i']):
        if v['case_digest'] in known:
            print(f"KNOWN-FINDING: property={prop} {known[v['case_digest']]}")
        else:
            new.append(v)

    wall = time.monotonic() - start
    batch.write_evidence(wall, batch.conf.get('LEVEL', 'exploration'), len(new))

    print(f'{batch.evals} runs ({len(batch.nontrivial)} distinct non-trivial) in {batch.explore_s:.1f} s, '
          f'{sum(batch.fired.values())} faults injected, {batch.determinism} repeated runs, '
          f'{len(batch.nondet)} of them different', flush=True)

    if new:
        by_cls = collections.Counter(v['cls'] for v in new)
        print('violating runs by class:', dict(by_cls))
        out, data = report(batch, new[0])
        print(f"{data['cls']}: {data['msg']}")
        print(f'VIOLATION property={prop} replay={out}', flush=True)
        sys.exit(1)

    if batch.harness or batch.dead or batch.evals == 0:
        for h in batch.harness[:5]:
            print('HARNESS-ERROR', h)
        print('HARNESS-ERROR dead workers:', batch.dead)
        sys.exit(2)

    print(f'{prop}: held on everything explored')
    sys.exit(0)

if __name__ == '__main__':
    main()
