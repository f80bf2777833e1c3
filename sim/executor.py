'''
Runs one case in a forked child of a pristine process: every case starts from the state of a fresh process in which
hylaa has only been imported. Also used by checks which need a second, untouched process.
'''

import importlib
import json
import os
import resource
import signal
import sys
import traceback

from sim import doubt
from sim.util import HarnessError, Skip, TooLarge, Violation

CPU_LIMIT = 60

def load(prop):
    'the module of a check'
    return importlib.import_module('sim.checks.' + prop.lower())

def in_fork(func, cpu_limit=CPU_LIMIT, mem_gb=6):
    '''run func() in a forked child

    returns ('ok', json value) or ('signal', number) or ('exit', code)
    '''

    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()

    if pid == 0:
        code = 0

        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_limit, cpu_limit + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            data = json.dumps(func()).encode()

            while data:
                data = data[os.write(w, data):]
        except BaseException: # pylint: disable=broad-except
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)

    os.close(w)
    chunks = []

    while True:
        b = os.read(r, 1 << 16)

        if not b:
            break
        chunks.append(b)

    os.close(r)
    _, status = os.waitpid(pid, 0)

    if os.WIFSIGNALED(status):
        return 'signal', os.WTERMSIG(status)

    if os.WEXITSTATUS(status) != 0:
        return 'exit', os.WEXITSTATUS(status)

    return 'ok', json.loads(b''.join(chunks))

def _short_tb(exc):
    'where an exception came from'

    frames = traceback.extract_tb(exc.__traceback__)
    rv = [f'{os.path.basename(f.filename)}:{f.name}' for f in frames[-6:]]
    return ' > '.join(rv)

def outcome_of(mod, case):
    'run a case in this process; returns an outcome dict'

    from sim.seams import SIM, Stuck

    try:
        res = mod.run(case)
        return {'kind': 'ok', 'res': res, 'fired': SIM.fired}
    except Skip as e:
        return {'kind': 'skip', 'msg': str(e)}
    except Violation as e:
        return {'kind': 'violation', 'cls': e.cls, 'msg': e.msg, 'fired': SIM.fired}
    except Stuck as e:
        return {'kind': 'violation', 'cls': 'stuck', 'msg': f'no progress: {e}', 'fired': SIM.fired}
    except TooLarge:
        return {'kind': 'skip', 'msg': 'too large'}
    except HarnessError as e:
        return {'kind': 'harness', 'msg': str(e)}
    except BaseException as e: # pylint: disable=broad-except
        return {'kind': 'violation', 'cls': f'exception-{type(e).__name__}',
                'msg': f'{type(e).__name__}: {str(e)[:300]} at {_short_tb(e)}', 'fired': SIM.fired}

def execute(mod, case):
    'run a case in a forked child; returns an outcome dict'

    limit = getattr(mod, 'CPU_LIMIT', CPU_LIMIT)
    kind, val = in_fork(lambda: outcome_of(mod, case), limit)

    if kind == 'ok':
        if val['kind'] == 'violation':
            doubt.start()
            in_fork(lambda: outcome_of(mod, case), 4 * limit)

            if doubt.stop():
                return {'kind': 'skip', 'msg': 'the solver library gave a wrong answer or none'}

        return val

    if kind == 'signal' and val in (signal.SIGXCPU, signal.SIGKILL):
        return {'kind': 'violation', 'cls': 'hang', 'msg': f'did not finish within {limit} s of processor time'}

    if kind == 'signal' and val == signal.SIGABRT and getattr(mod, 'SOLVER_ABORTS', False):
        return {'kind': 'skip', 'msg': 'the solver library aborted (assertion in GLPK)'}

    if kind == 'signal':
        return {'kind': 'violation', 'cls': 'crash', 'msg': f'the process died of signal {val}'}

    return {'kind': 'violation', 'cls': 'crash', 'msg': f'the process ended with exit code {val}'}
