'''
A second pristine process with another hash seed (and other memory addresses), in which functions of a check are run in
forked children: the reference for "the same analysis in a fresh process".
'''

import json
import os
import subprocess
import sys

from sim import doubt

class Twin:
    'client side'

    def __init__(self, prop):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str((int(env.get('PYTHONHASHSEED', '0') or 0) * 31 + 17) % 4000)
        env[doubt.ENV] = str(doubt.FD)
        self.proc = subprocess.Popen([sys.executable, '-m', 'sim.twin', prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     pass_fds=(doubt.FD,), env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def ask(self, func, arg):
        'run a function of the check over there; returns (kind, value) as executor.in_fork'

        self.proc.stdin.write(json.dumps([func, arg]).encode() + b'\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()

        if not line:
            return 'exit', 'the twin process died'

        return json.loads(line)

def main():
    'server'

    out = os.fdopen(os.dup(1), 'wb')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)

    from sim import seams
    seams.install()
    from sim.executor import in_fork, load
    mod = load(sys.argv[1])
    import hylaa.core # pylint: disable=unused-import

    for line in sys.stdin.buffer:
        func, arg = json.loads(line)
        res = in_fork(lambda f=func, a=arg: getattr(mod, f)(a), getattr(mod, 'CPU_LIMIT', 60))
        out.write(json.dumps(res).encode() + b'\n')
        out.flush()

if __name__ == '__main__':
    main()
