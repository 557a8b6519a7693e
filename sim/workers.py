"""Worker processes forked while predictions are under way (C17)."""
import copy
import json
import os
import random
import select
import shutil
import signal

from . import core, dem, jobs, parallel, shim
from .parallel import DEMs, at_home, clip, cold, scratch, _shared


# ----------------------------------------- forked beside threads in mid-call
def gen_forks(rng):
    while True:
        plan = parallel.gen_threads(rng)
        if len(plan['threads']) <= 3:
            break
    plan['prop'] = 'C17'
    plan['heat'] = rng.choice([0.1, 0.3, 0.5, 0.8])
    if rng.random() < 0.6 and not any('spoilt' in j for j in plan['threads'][0]):
        base = plan['threads'][0][0]    # one thread works, another forks again and again
        if base['fn'] in jobs.HELPERS + ('num_samples', 'interdecile', 'buffer', 'line'):
            plan['threads'][0] += [jobs.vary(rng, base) for _ in range(rng.choice([2, 5, 10]))]
        some = [copy.deepcopy(rng.choice(plan['threads'][0])) if rng.random() < 0.4 else jobs.vary(rng, rng.choice(plan['threads'][0]))
                for _ in range(rng.choice([2, 4, 6]))]
        for j in some:
            j['fork'] = True
        plan['threads'] = [plan['threads'][0], some] + plan['threads'][2:]
        plan['quantum'] = rng.choice([3, 10, 30, 100, 300])
    for t, js in enumerate(plan['threads']):
        for j in js:
            j.pop('at', None)
            if t and 'spoilt' not in j and rng.random() < 0.7:
                j['fork'] = True
    if not any(j.get('fork') for js in plan['threads'] for j in js):
        plan['threads'][-1][-1]['fork'] = True
    return plan


# --------------------------------------------------------- a pool of workers
def gen_pool(rng):
    world = dem.several(rng, rng.choice([1, 1, 2]))

    def job(like=None):
        if like is not None and rng.random() < 0.7:
            return jobs.vary(rng, like)
        return jobs.gen_terrain(rng, world) if rng.random() < 0.75 else jobs.gen_any(rng, world, (2, 2, 1, 3))
    warm = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        warm.append(job())
        if rng.random() < 0.1:
            warm[-1] = jobs.spoil(rng, warm[-1])
    likes = [j for j in warm if 'spoilt' not in j] or [job()]
    workers = [[job(rng.choice(likes)) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([2, 2, 3, 4]))]
    plan = {'world': 'pool', 'prop': 'C17', 'dems': world, 'warm': warm, 'workers': copy.deepcopy(workers),
            'sched': rng.randrange(1 << 40), 'stay': rng.choice([0.0, 0.3, 0.7])}
    if rng.random() < 0.25:
        plan['doom'] = [rng.randrange(len(workers)), int(2 ** rng.uniform(0, 6))]
    return plan


def work(js, cr, sw, rw, root):
    """One party: waits for its turn at every file operation."""
    os.read(cr, 1)
    s = shim.lib()
    s.vs_baton(cr, sw)
    shim.arm(root)
    out = [jobs.perform(j) for j in js]
    shim.disarm()
    s.vs_baton(-1, -1)
    data = json.dumps(out).encode()
    while data:
        data = data[os.write(rw, data):]


def parent(plan, pipes, root, folder):
    """The process that has worked already and forks the workers; it is the last party."""
    at_home(folder, lambda: [jobs.perform(j) for j in plan['warm']])
    kids = []
    for i, js in enumerate(plan['workers'][:-1]):
        cr, sw, rw = pipes[i]
        pid = os.fork()
        if pid == 0:
            code = 98
            try:
                for later in pipes[i + 1:]:
                    for fd in later:
                        os.close(fd)
                work(js, cr, sw, rw, root)
                code = 0
            finally:
                os._exit(code)
        for fd in (cr, sw, rw):
            os.close(fd)
        kids.append(pid)
    try:
        work(plan['workers'][-1], *pipes[-1], root)
    finally:
        for fd in pipes[-1]:
            os.close(fd)
        for pid in kids:
            os.waitpid(pid, 0)


def run_pool(plan):
    stats = core.Stats()
    folder = scratch()
    try:
        with DEMs(plan['dems']) as d:
            return run_pool_in(plan, folder, d.dir, stats)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run_pool_in(plan, folder, root, stats):
    n = len(plan['workers'])
    child, to, frm, data = [], [], [], []
    for _ in range(n):
        cr, cw = os.pipe()
        sr, sw = os.pipe()
        rr, rw = os.pipe()
        child.append((cr, sw, rw))
        to.append(cw)
        frm.append(sr)
        data.append(rr)
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            os.setsid()
            for fd in to + frm + data:
                os.close(fd)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            parent(plan, child, root, folder)
            code = 0
        finally:
            os._exit(code)
    for fds in child:
        for fd in fds:
            os.close(fd)
    rng = random.Random(plan['sched'])
    explicit = plan.get('order')
    alive = set(range(n))
    cur, pos = 0, 0
    order, trail = [], []
    doomed, last = plan.get('doom', [-1, 0])
    if doomed == n - 1:
        doomed = -1                     # the parent lives
    asked = 0
    raw = [b''] * n
    try:
        while alive:
            left = 1
            if explicit is not None:
                while pos < len(explicit) and explicit[pos][0] not in alive:
                    pos += 1
                nxt, left = explicit[pos] if pos < len(explicit) else (min(alive), 1 << 30)
                pos += 1
            else:
                nxt = cur if cur in alive and rng.random() < plan['stay'] else rng.choice(sorted(alive))
            while left > 0 and nxt in alive:
                if nxt == doomed:
                    asked += 1
                    if asked == last:   # left alone for good: it never runs again
                        alive.discard(nxt)
                        stats.hit('faults', 'worker stalled for good')
                        break
                try:
                    os.write(to[nxt], b'g')
                except BrokenPipeError:
                    alive.discard(nxt)
                    break
                while True:             # a long result may fill its pipe before the worker ends
                    ready = select.select([frm[nxt], data[nxt]], [], [], 60)[0]
                    if not ready:
                        raise core.Stuck('worker %d does not come back' % nxt)
                    if frm[nxt] in ready:
                        break
                    raw[nxt] += os.read(data[nxt], 65536)
                c = os.read(frm[nxt], 1)
                if not c:
                    alive.discard(nxt)
                trail.append((nxt, shim.KINDS[c[0] - ord('a')] if c else 'end'))
                if order and order[-1][0] == nxt:
                    order[-1][1] += 1
                else:
                    order.append([nxt, 1])
                left -= 1
                if len(trail) > 60000:
                    raise core.Stuck('too many operations')
            cur = nxt
        results = []
        for i in range(n):
            while i != doomed or asked < last:
                if not select.select([data[i]], [], [], 60)[0]:
                    raise core.Stuck('worker %d does not come back' % i)
                part = os.read(data[i], 65536)
                if not part:
                    break
                raw[i] += part
            results.append(json.loads(raw[i]) if raw[i] else None)
    finally:
        for fd in to + frm + data:
            os.close(fd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        os.waitpid(pid, 0)
    stats.hit('operations', n=len(trail))
    stats.hit('faults', 'process switch', n=max(0, len(order) - 1))
    stats.hit('faults', 'fork', n=n - 1)
    v = None
    for i, js in enumerate(plan['workers']):
        who = 'worker %d' % i if i < n - 1 else 'the parent'
        if results[i] is None:
            if i != doomed and v is None:
                v = {'kind': 'died', 'what': who + ' died'}
            continue
        for k, j in enumerate(js):
            stats.hit('jobs', j['fn'])
            if v is None:
                alone = cold(j)
                if not jobs.agree(results[i][k], alone):
                    v = {'kind': 'worker result', 'what': '%s of a pool, job %d (%s), differs from running alone'
                         % (who, k, j['fn']), 'got': clip(results[i][k]), 'expected': clip(alone), 'order': order[:60]}
    info = {'digest': core.digest([results, order]), 'path': core.digest([trail, [j['fn'] for js in plan['workers'] for j in js]]),
            'order': order, 'fired': order[:200], 'states': sorted({core.digest([a, b]) for a, b in zip(trail, trail[1:])})}
    return v, stats, info


def shrink_pool(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['warm'] = core.ddmin_list(plan['warm'], lambda w: fails(dict(plan, warm=w)), budget)
    for i in range(len(plan['workers'])):
        if len(plan['workers'][i]) > 1:
            def wj(js):
                q = copy.deepcopy(plan)
                q['workers'][i] = js
                return q
            plan['workers'][i] = core.ddmin_list(plan['workers'][i], lambda js: bool(js) and fails(wj(js)), budget)
    _, _, info = run_pool(plan)
    q = dict(plan, order=info['order'])
    if fails(q):
        plan = q
        plan['order'] = core.ddmin_list(plan['order'], lambda o: fails(dict(plan, order=o)), budget)
    return plan
