'''
worker process: python -m sim.worker PROP TIER SEED INDEX WORKERS COUNT FD
writes one json line per case to file descriptor FD
'''

import json
import os
import sys

def main():
    'main'

    prop, tier, seed, index, workers, count, fd = sys.argv[1:8]
    seed, index, workers, count, fd = int(seed), int(index), int(workers), int(count), int(fd)
    out = os.fdopen(fd, 'w')

    from sim import seams
    seams.install()

    from sim.executor import execute, load
    from sim.util import digest, rng_for

    mod = load(prop)
    mod_prepare = getattr(mod, 'prepare', None)

    if mod_prepare:
        mod_prepare()

    import hylaa.core # pylint: disable=unused-import

    def one(i, again):
        'one case'

        case = mod.generate(rng_for(seed, prop, i), tier)
        out.write(json.dumps({'begin': i}) + '\n')
        res = execute(mod, case)

        if res['kind'] == 'violation':
            # confirm in a second, untouched process
            res2 = execute(mod, case)

            if res2['kind'] == 'violation' and res2['cls'] == res['cls']:
                res['case'] = case
            elif res['cls'] == 'hang':
                res = {'kind': 'skip', 'msg': 'slow'}
            else:
                res = {'kind': 'harness', 'msg': f'violation was not repeatable: {res} then {res2}'}

        res['i'] = i
        res['case_digest'] = digest(case)
        res['again'] = again
        res['result_digest'] = digest(res.get('res'))

        if i < 3 and not again:
            res['sample'] = case

        out.write(json.dumps(res) + '\n')
        out.flush()

    # determinism: the first few cases are run by two workers (with different hash seeds)
    for i in range(workers):
        if i % workers == (index + 1) % workers and i < count and workers > 1:
            one(i, True)

    for i in range(index, count, workers):
        one(i, False)

    out.write(json.dumps({'done': index}) + '\n')
    out.flush()
    out.close()

if __name__ == '__main__':
    main()
