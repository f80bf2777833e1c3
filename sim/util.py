'''shared helpers: seeded randomness, hashing, errors'''

import hashlib
import json
import os
import random

REPO = os.environ.get('HYLAA_REPO', '/repo')

def rng_for(*parts):
    'a random.Random that is a pure function of the passed-in parts'

    digest = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(digest[:16], 'big'))

def digest(obj):
    'short stable hash of a json-able object'

    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]

class Violation(Exception):
    'the property is broken; cls is a stable label used while minimising'

    def __init__(self, cls, msg):
        Exception.__init__(self, f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg

class HarnessError(Exception):
    'the harness (not the code under test) went wrong'

class Skip(Exception):
    'the generated case is not usable'

class Schedule:
    '''a finite list of integers which decides every nondeterministic choice; after the end, always the first option

    what was decided is recorded (for the measure of distinct schedules)
    '''

    def __init__(self, ints):
        self.ints = ints
        self.pos = 0
        self.trace = []

    def choose(self, n, label=''):
        'an int in [0, n)'

        val = self.ints[self.pos] % n if self.pos < len(self.ints) and n > 1 else 0

        if n > 1:
            self.pos += 1
            self.trace.append((label, n, val))

        return val

class TooLarge(Exception):
    'numbers became too large for the tolerances, or problems for the solver; the run is cut off here'
