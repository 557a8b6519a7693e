"""Plumbing shared by all simulated worlds.

One run of the simulator is: a plan (plain JSON data, derived from one integer
seed) -> executions of the real code in forked children of a pristine process
-> a recorded history -> a verdict.  Nothing but the plan decides what happens,
so a plan is also the replay file.
"""
import hashlib
import json
import math
import os
import pickle
import random
import select
import signal
import sys
import time

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD_WALL_S = 100          # a child that needs longer does not come back


class HarnessError(Exception):
    pass


class Stuck(HarnessError):
    """A simulated execution did not come back."""


def derive(*parts):
    """One integer out of the base seed and a path of labels."""
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(*parts):
    return random.Random(derive(*parts))


# ----------------------------------------------------------------- children
def in_child(fn, *args, quiet=True, wall=CHILD_WALL_S):
    """Run fn(*args) in a forked child.

    Returns ('ok', value), ('raised', text) if fn itself raised, or
    ('died', status) if the process ended without an answer.
    """
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            if quiet:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                sys.stdout = open(1, 'w', closefd=False)
                sys.stderr = open(2, 'w', closefd=False)
            try:
                out = ('ok', fn(*args))
            except BaseException as error:          # reported to the parent
                import traceback
                out = ('raised', '%s: %s\n%s' % (
                    type(error).__name__, error, traceback.format_exc()))
            data = pickle.dumps(out)
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    deadline = time.monotonic() + wall
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([rfd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Stuck('no answer within %s s' % wall)
            part = os.read(rfd, 1 << 20)
            if not part:
                break
            chunks.append(part)
    finally:
        os.close(rfd)
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if not chunks:
        return ('died', status)
    return pickle.loads(b''.join(chunks))


def ask(fn, *args, **kw):
    """in_child for harness functions which must not fail."""
    kind, value = in_child(fn, *args, **kw)
    if kind != 'ok':
        raise HarnessError('%s in child: %s' % (kind, value))
    return value


# ------------------------------------------------------------ known findings
_known = []


def findings():
    """[(property, id, text)] of the findings which are recorded and not repaired."""
    if not _known:
        _known.append([])
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for ln in f:
                if ln.startswith('known: property='):
                    prop, name, text = ln[len('known: property='):].strip().split(' ', 2)
                    _known[0].append((prop, name, text))
    return _known[0]


def known(prop, name):
    return any(p == prop and n == name for p, n, _ in findings())


# --------------------------------------------------------------- comparison
def same(a, b, rel=1e-9):
    """Equality of results, up to the last few digits of floats."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        if isinstance(a, float) and math.isnan(a):
            return isinstance(b, float) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= rel * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rel) for k in a)
    return a == b


def plain(x):
    """Results as plain Python data (numpy scalars and arrays unpacked)."""
    import numpy as np
    if isinstance(x, (bool, str, type(None))):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return [float(x.real), float(x.imag)]
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return repr(x)


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]


class Stats(dict):
    """Counters that add up over runs; values may be ints or nested Stats."""

    def hit(self, *path, n=1):
        d = self
        for k in path[:-1]:
            d = d.setdefault(str(k), {})
        d[str(path[-1])] = d.get(str(path[-1]), 0) + n


def merge(into, other):
    for k, v in other.items():
        if isinstance(v, dict):
            merge(into.setdefault(k, {}), v)
        else:
            into[k] = into.get(k, 0) + v
    return into


# ------------------------------------------------------------- minimisation
def ddmin_list(items, fails, budget):
    """Greedy delta debugging of a list; fails(list) -> bool."""
    n = max(1, len(items) // 2)
    while n >= 1 and budget[0] > 0:
        i = 0
        while i < len(items) and budget[0] > 0:
            trial = items[:i] + items[i + n:]
            budget[0] -= 1
            if fails(trial):
                items = trial
            else:
                i += n
        n //= 2
    return items
