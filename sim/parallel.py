"""The thread world (C05), the process-history world (C06), and runners that
are cut short (C04, C07)."""
import copy
import gc
import os
import random
import shutil
import tempfile
import time

from . import core, dem, jobs, params, sched, session, shim
from .core import same

EXCS = session.EXCS


# ------------------------------------------------------------------ scratch
def scratch():
    base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='w', dir=base)


class DEMs:
    """The DEM files of a plan, below a scratch directory."""

    def __init__(self, described):
        self.d = described
        self.dir = None

    def __enter__(self):
        if self.d:
            self.dir = scratch()
            core.ask(_build, self.dir, self.d)
            jobs.DEM_DIR[0] = self.dir
        return self

    def __exit__(self, *_):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            jobs.DEM_DIR[0] = None


def _build(folder, described):
    for d in described:
        dem.build(folder, d)


def at_home(folder, fn, *args):
    """Run fn where nobody else has been: own working, home and temporary directories."""
    for k, d in (('HOME', 'home'), ('XDG_CACHE_HOME', 'home/.cache'), ('TMPDIR', 'tmp')):
        os.environ[k] = os.path.join(folder, d)
        os.makedirs(os.environ[k], exist_ok=True)
    tempfile.tempdir = None
    os.makedirs(os.path.join(folder, 'cwd'), exist_ok=True)
    os.chdir(os.path.join(folder, 'cwd'))
    return fn(*args)


def noon(job, shared):
    """A job by itself, at a fixed time."""
    s = shim.lib()
    s.vs_clock(1626350400 * 10 ** 9, 1000)
    try:
        return jobs.perform(job, shared)
    finally:
        s.vs_clock_off()


def cold(job, shared=None):
    folder = scratch()
    try:
        return core.ask(at_home, folder, noon, job, shared)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def _each(js):
    return [core.ask(noon, j, None) for j in js]


def cold_many(js):
    """Each of them in a process of its own, forked from one where nothing has been done."""
    folder = scratch()
    try:
        return core.ask(at_home, folder, _each, js)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


# ------------------------------------------------------------------ threads
def gen_threads(rng):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    world = dem.several(rng, rng.choice([1, 2, 2])) if rng.random() < 0.35 else []
    shared = [jobs.profile(rng) for _ in range(2)]
    shape = rng.random()
    ts = []
    base = jobs.gen_any(rng, world, (2, 4, 4, 12))
    crowd = rng.choice(jobs.HELPERS)
    for t in range(n):
        if shape < 0.12:                # many different calls of one function each
            ts.append([jobs.gen_helper(rng, crowd) for _ in range(rng.choice([3, 6, 10]))])
        elif shape < 0.65:                # variations of one job: they meet in the same code
            ts.append([base if t == 0 else jobs.vary(rng, base)])
            if rng.random() < 0.4 and base['fn'] in jobs.HELPERS + ('session',):
                ts[-1] = [copy.deepcopy(ts[-1][0]) for _ in range(rng.choice([2, 3, 5]))]
        elif shape < 0.85:              # short helpers and sessions, several each
            ts.append([jobs.gen_any(rng, world, (4, 2, 0, 1)) for _ in range(rng.choice([1, 2, 4]))])
        else:
            ts.append([jobs.gen_any(rng, world, (2, 3, 3, 2))])
    for js in ts:
        for j in js:
            if j['fn'] in ('zlsq1', 'dlthx', 'hzns') and rng.random() < 0.6:
                k = rng.randrange(2)
                j['shared'] = [0, k]
                j['args'][0] = list(shared[k])
                length = shared[k][0] * shared[k][1]
                if j['fn'] == 'hzns':
                    j['args'][1] = length
                else:
                    j['args'][1:] = [rng.uniform(0, 0.4) * length, rng.uniform(0.6, 1) * length]
            elif j['fn'] in ('p2p', 'p2p_2tiles') and rng.random() < 0.4:
                k = rng.randrange(2)
                j['shared'] = [1, k + 2]
                j['args'][1] = list(shared[k][2:])
    if rng.random() < 0.25:             # one thread is cut short, now and then
        t = rng.randrange(n)
        for j in ts[t]:
            if rng.random() < 0.7:
                j['at'] = [rng.choice(sorted(EXCS)), session.bias(rng)]
        ts[t] = [copy.deepcopy(j) for j in ts[t]]
    if rng.random() < 0.15:             # jobs that fail by themselves
        t = rng.randrange(n)
        ts[t] = [jobs.spoil(rng, j) if rng.random() < 0.7 else j for j in ts[t]]
    heavy = any(j['fn'] in ('pimter', 'area', 'area_2tiles') for js in ts for j in js)
    fine = rng.random() < (0.25 if heavy else 0.5)
    plan = {'world': 'threads', 'prop': 'C05', 'threads': ts, 'shared': shared, 'dems': world, 'fine': fine,
            'quantum': rng.choice([3, 12, 50, 200, 1000] if not heavy else [20, 100, 500, 3000]),
            'burst': rng.choice([0, 0, 0.2, 0.5]), 'heat': rng.choice([0, 0.05, 0.2, 0.5]), 'sched': rng.randrange(1 << 40),
            'gc': rng.random() < 0.2}
    if rng.random() < 0.3:              # after a long day: whatever has a limited size is full
        fns = sorted({j['fn'] for js in ts for j in js} & set(jobs.HELPERS)) or list(jobs.HELPERS)
        plan['warm'] = [rng.choice(fns), rng.choice([3, 20, 150, 600]), rng.randrange(1 << 30)]
        if rng.random() < 0.5:
            plan['heat'] = 0.5
    elif shape < 0.12:
        plan['heat'] = 0.5
    return plan


def gen_threads_terrain(rng):
    """Threads which query terrain: few lines of the repository between long calls of libraries."""
    world = dem.several(rng, rng.choice([1, 1, 2]))
    base = jobs.gen_terrain(rng, world)
    ts = []
    for t in range(rng.choice([2, 2, 3])):
        ts.append([jobs.vary(rng, base) if rng.random() < 0.7 else jobs.gen_terrain(rng, world) for _ in range(rng.choice([1, 2, 2]))])
    if rng.random() < 0.2:
        t = rng.randrange(len(ts))
        ts[t] = [jobs.spoil(rng, j) if rng.random() < 0.5 else dict(copy.deepcopy(j), at=[rng.choice(sorted(EXCS)), session.bias(rng)])
                 for j in ts[t]]
    return {'world': 'threads', 'prop': 'C05', 'threads': ts, 'shared': [jobs.profile(rng)], 'dems': world, 'fine': rng.random() < 0.4,
            'quantum': rng.choice([1, 2, 4, 10, 40]), 'burst': rng.choice([0, 0, 0.3]), 'heat': rng.choice([0, 0.2, 0.5, 0.8]),
            'sched': rng.randrange(1 << 40), 'gc': rng.random() < 0.1}


def warm_up(what):
    fn, n, seed = what
    r = random.Random(seed)
    for _ in range(n):
        jobs.perform(jobs.gen_helper(r, fn))


def _shared(plan):
    s = copy.deepcopy(plan['shared'])
    return s + [p[2:] for p in s]


def exec_threads(plan):
    shared = _shared(plan)
    if plan.get('gc'):
        gc.set_threshold(1)
    if plan.get('warm'):
        warm_up(plan['warm'])

    def body(js):
        def go():
            out = []
            for j in js:
                if 'cut' in j:
                    t.cut_after(j['cut'][1], EXCS[j['cut'][0]])
                if j.get('fork'):
                    t.breathe()
                out.append(forked(t, j, shared) if j.get('fork') else jobs.perform(j, shared))
                if 'cut' in j:
                    t.go_on()
            return out
        return go
    t = sched.Threads([body(js) for js in plan['threads']], plan['fine'], plan['quantum'], plan['sched'],
                      plan.get('switches'), burst=plan.get('burst', 0),
                      heat=0 if 'switches' in plan else plan.get('heat', 0))
    res = t.run()
    return {'results': res, 'made': t.made, 'steps': t.step, 'cuts': t.cuts, 'trail': t.trail[:400],
            'failure': repr(t.failure) if t.failure else None,
            'order': core.digest(t.trail)}


def at_rest(pid, last={}):
    """Does the process sleep, without having computed anything since we asked last?"""
    try:
        with open('/proc/%d/stat' % pid) as f:
            f = f.read().rsplit(')', 1)[1].split()
    except OSError:
        return False
    spent = [pid, f[11], f[12]]
    rest = f[0] == 'S' and last.get('spent') == spent
    last['spent'] = spent
    return rest


def forked(t, j, shared):
    """Perform a job in a process forked here and now, in which no other thread exists."""
    import json
    import select
    import signal
    import sys
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            sys.settrace(None)
            os.close(r)
            me = t.me()
            t.done = [i != me for i in range(len(t.jobs))]
            try:
                out = jobs.perform(j, shared)
            except BaseException as error:
                out = {'raised': type(error).__name__, 'escaped': True}
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    asleep = waited = 0
    try:
        while True:
            if not select.select([r], [], [], 0.5)[0]:
                asleep = asleep + 1 if at_rest(pid) else 0
                waited += 1
                if asleep >= 12 or waited >= 60:
                    os.kill(pid, signal.SIGKILL)
                    return {'stuck': 'the forked process does not come back'}
                continue
            part = os.read(r, 1 << 16)
            if not part:
                return json.loads(data) if data else {'stuck': 'the forked process died'}
            data += part
    finally:
        os.close(r)
        os.waitpid(pid, 0)


def run_threads(plan):
    stats = core.Stats()
    plan = copy.deepcopy(plan)
    with DEMs(plan['dems']):
        for j in (j for js in plan['threads'] for j in js):
            if 'at' in j:
                j['cut'] = [j['at'][0], sched.spot(j['at'][1], core.ask(count_hot, j, _shared(plan), plan['fine']))]
        folder = scratch()
        try:
            got = core.ask(at_home, folder, exec_threads, plan)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        stats.hit('steps', n=got['steps'])
        stats.hit('switches', n=len(got['made']))
        stats.hit('faults', 'thread switch', n=len(got['made']))
        stats.hit('operations', n=sum(len(js) for js in plan['threads']))
        if plan['prop'] == 'C17':
            stats.hit('faults', 'fork', n=sum('fork' in j for js in plan['threads'] for j in js))
        for _, place in got['cuts']:
            stats.hit('faults', 'call of a thread cut short')
            stats.hit('places', place)
        v = None
        if got['failure']:
            v = {'kind': 'no progress', 'what': 'the threads stopped: ' + got['failure'], 'got': got['failure']}
        for t, js in enumerate(plan['threads']):
            if v:
                break
            for k, j in enumerate(js):
                stats.hit('jobs', j['fn'])
                if 'cut' in j:
                    continue
                alone = cold(j, _shared(plan))
                r = got['results'][t]
                r = r[k] if isinstance(r, list) else r
                if not jobs.agree(r, alone):
                    v = {'kind': 'thread result', 'what': 'thread %d, job %d (%s%s) differs from running alone'
                         % (t, k, j['fn'], ', in a forked process' if j.get('fork') else ''), 'got': clip(r), 'expected': clip(alone),
                         'switches': got['trail'][:60]}
                    break
        info = {'digest': core.digest([got['results'], got['made'], got['steps']]), 'path': got['order'],
                'states': [core.digest([a, b, p]) for a, b, p in got['trail'][:200]], 'made': got['made'],
                'fired': [['switch'] + m for m in got['made'][:200]]}
    return v, stats, info


def clip(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def count_fine(job, shared, fine):
    st = sched.Stepper(fine)
    jobs.perform(job, shared, stepper=st)
    return st.n


def count_hot(job, shared=None, fine=False):
    st = sched.Stepper(fine, mark=True)
    jobs.perform(job, shared, stepper=st)
    return st.n, st.hot[::1 + len(st.hot) // 4000]


def shrink_threads(plan, fails, budget):
    plan = copy.deepcopy(plan)
    # make the switches explicit first
    _, _, info = run_threads(plan)
    q = dict(plan, switches=info['made'])
    if fails(q):
        plan = q
    if len(plan['threads']) > 2:
        for t in range(len(plan['threads']) - 1, -1, -1):
            if len(plan['threads']) > 2 and budget[0] > 0:
                q = copy.deepcopy(plan)
                del q['threads'][t]
                q.pop('switches', None)
                budget[0] -= 1
                if fails(q):
                    _, _, info = run_threads(q)
                    q2 = dict(q, switches=info['made'])
                    plan = q2 if fails(q2) else q
    for t in range(len(plan['threads'])):
        if len(plan['threads'][t]) > 1:
            def only(js):
                q = copy.deepcopy(plan)
                q['threads'][t] = js
                return q
            plan['threads'][t] = core.ddmin_list(plan['threads'][t], lambda js: bool(js) and fails(only(js)), budget)
    if 'switches' in plan:
        plan['switches'] = core.ddmin_list(plan['switches'], lambda s: fails(dict(plan, switches=s)), budget)
    return plan


# ---------------------------------------------------- history of the process
RECORDS = ('area', 'area_2tiles', 'p2p', 'p2p_2tiles')


def gen_history(rng, spawn=False):
    world = []
    if not spawn and rng.random() < 0.25:
        world = dem.several(rng, rng.choice([1, 2]))
    n = rng.choice([3, 6, 10, 15]) if rng.random() < 0.9 else rng.choice([80, 300, 600, 1100])
    seq = []
    shape = rng.random()
    weights = (3, 3, 2, 2) if n < 50 else (6, 4, 0, 0)
    base = [jobs.gen_any(rng, world, weights) for _ in range(1 if shape < 0.5 else 3)]
    if shape < 0.2 and n < 50:
        base = [jobs.gen_runner(rng, small=True)]
    crowd = rng.choice(jobs.HELPERS) if n > 50 and shape < 0.6 else None
    for _ in range(n):
        k = rng.random()
        if crowd:                               # a table of whatever size is full in the end
            j = jobs.vary(rng, rng.choice(seq[-400:])) if seq and k < 0.4 else jobs.gen_helper(rng, crowd)
        elif seq and k < 0.2:
            j = copy.deepcopy(rng.choice(seq))
            j.pop('fault', None)
        elif k < 0.3 and any(s['fn'] in RECORDS and 'spoilt' not in s for s in seq):
            j = jobs.twist(rng, rng.choice([s for s in seq if s['fn'] in RECORDS and 'spoilt' not in s]))
        elif k < 0.8:
            b = rng.choice(base)
            j = jobs.vary(rng, b)
            if rng.random() < 0.4:
                base[base.index(b)] = j         # drift away
        else:
            j = jobs.gen_any(rng, world, weights)
        if rng.random() < 0.08 and not crowd:
            j = jobs.spoil(rng, j)
        j = copy.deepcopy(j)
        j.pop('reuse', None)
        if rng.random() < 0.1 and 'spoilt' not in j:
            j = jobs.reform(rng, j)
        elif rng.random() < 0.35 and 'spoilt' not in j:
            j['reuse'] = True
        if j['fn'] in RECORDS + ('line',) and 'order' not in j and rng.random() < 0.2:
            j['keys'] = rng.randrange(1, 1 << 30)
        if n < 50 and rng.random() < 0.15:
            j['fault'] = [rng.choice(sorted(EXCS)), rng.random()]
        seq.append(j)
    if spawn:
        for fn in ('area', 'area_2tiles', 'p2p', 'p2p_2tiles', 'pimter'):
            if rng.random() < 0.6:
                seq.insert(rng.randrange(len(seq) + 1), jobs.gen_runner(rng, fn, small=True))
    env = {}
    for k in ('clock', 'entropy', 'random', 'cwd', 'environ', 'locale', 'gc', 'jumps'):
        if rng.random() < 0.4:
            env[k] = rng.randrange(1, 1 << 40)
    plan = {'world': 'history', 'prop': 'C06', 'jobs': seq, 'dems': world, 'env': env}
    if crowd:
        plan['crowd'] = crowd
    if spawn:
        plan['spawn'] = rng.randrange(1, 4_000_000_000)
    return plan


def disturb_env(env, folder, dems=()):
    import locale
    import numpy as np
    s = shim.lib()
    if 'random' in env:
        random.seed(env['random'])
        np.random.seed(env['random'] % (1 << 32))
    if 'entropy' in env:
        s.vs_entropy(env['entropy'])
    if 'clock' in env:
        r = random.Random(env['clock'])
        base = r.choice([0, 951782399, 1709164800, 1735603200, 2147483640, 4102444799, 1583020800, r.uniform(0, 4e9),
                         r.uniform(0, 4e9), r.uniform(0, 4e9)]) + r.random() * 9e4
        s.vs_clock(int(base * 1e9), r.choice([1, 1000, 1_000_000, 999_999_937]))
    if 'cwd' in env and folder:
        os.chdir(clutter(folder, env['cwd'], dems))
    if 'environ' in env:
        r = random.Random(env['environ'])
        os.environ.update({'TZ': r.choice(['UTC', 'Asia/Tokyo', 'America/New_York']), 'LANG': r.choice(['C', 'C.UTF-8']),
                           'LC_ALL': r.choice(['C', 'C.UTF-8', 'de_DE.UTF-8']),
                           'PYTHONHASHSEED': str(r.randrange(1, 99))})
        time.tzset()
    if 'locale' in env:
        if env['locale'] % 3 == 0:          # a country where 1,5 is a number
            locale._override_localeconv = {'decimal_point': ',', 'thousands_sep': '.', 'grouping': [3, 3, 0]}
        for name in random.Random(env['locale']).sample(['C', 'C.UTF-8', 'POSIX', ''], 4):
            try:
                locale.setlocale(locale.LC_ALL, name)
                break
            except locale.Error:
                pass
    if 'gc' in env:
        k = env['gc'] % 3
        if k == 0:
            gc.disable()
        elif k == 1:
            gc.set_threshold(1)
        else:
            gc.collect()
            gc.set_threshold(7, 2, 2)


def clutter(folder, seed=0, dems=()):
    """A working directory in which somebody has worked before."""
    top = os.path.join(folder, 'other')
    for d in ('results', 'data/processed/shapes', 'scripts', '.cache'):
        os.makedirs(os.path.join(top, d), exist_ok=True)
    for name, text in (('scripts/script_config.ini', '[file_locations]\nbase_path = elsewhere\n'),
                       ('script_config.ini', '[file_locations]\nbase_path = elsewhere\n'),
                       ('results/area_results.csv', 'distance_km,confidence_level_%,propagation_loss_dB\n10,50,1\n'),
                       ('results/p2p_results.csv', 'distance_km,reliability_level_%,confidence_level_%,'
                                                   'propagation_loss_dB\n77.8,50,50,1\n')):
        with open(os.path.join(top, name), 'w') as f:
            f.write(text)
    if seed % 2:                        # elevation files of the same names, of another time
        for d in dems:
            core.ask(dem.build, top, dict(d, name=os.path.basename(d['name']), lift=-300, seed=d['seed'] + 1))
    return top


def exec_history(plan, folder):
    env = plan['env']
    disturb_env(env, folder, plan['dems'])
    jump = random.Random(env.get('jumps', 0))
    pool = {}
    out = []
    for j in plan['jobs']:
        if 'jumps' in env and 'clock' in env:
            shim.lib().vs_clock_jump(int(jump.choice([-1, 1]) * jump.expovariate(1e-6) * 1e9))
        st = None
        if 'fault' in j and 'steps' in j:
            st = sched.Stepper(target=sched.spot(j['fault'][1], j['steps']), exc=EXCS[j['fault'][0]])
        r = jobs.perform(j, None, pool, st)
        out.append({'r': r, 'fired': st.fired if st else None})
    s = shim.lib()
    cnt = [s.vs_clock_calls(), s.vs_entropy_calls()]
    s.vs_clock_off()
    s.vs_entropy_off()
    return out, cnt


def unbound(r):
    return isinstance(r, dict) and r.get('raised') in ('NameError', 'UnboundLocalError')


def run_history(plan):
    stats = core.Stats()
    plan = copy.deepcopy(plan)
    folder = scratch()
    try:
        with DEMs(plan['dems']):
            for j in plan['jobs']:
                if 'fault' in j:
                    j['steps'] = core.ask(count_hot, j)
            cache = {}
            if 'spawn' in plan:
                got, cnt = spawned(plan, folder)
            else:
                got, cnt = core.ask(at_home, folder, exec_history, plan, folder)
            v = None
            stats.hit('operations', n=len(got))
            for k in plan['env']:
                stats.hit('faults', k + ' disturbed')
            if 'spawn' in plan:
                stats.hit('faults', 'other interpreter and hash seed')
            stats.hit('simulated_clock_reads', n=cnt[0])
            stats.hit('simulated_entropy_reads', n=cnt[1])
            # in long histories, look at a part of the answers only
            look = range(len(got))
            if plan.get('crowd'):
                clean = {}
                for j in plan['jobs']:
                    c = {k: j[k] for k in ('fn', 'args', 'form') if k in j}
                    clean[core.digest(c)] = c
                cache = dict(zip(clean, cold_many(list(clean.values()))))
            elif len(got) > 60:
                r = random.Random(len(got))
                look = sorted(set(r.sample(range(len(got)), 40)) | set(range(len(got) - 12, len(got))))
            for i in look:
                j, g = plan['jobs'][i], got[i]
                stats.hit('jobs', j['fn'])
                if g['fired']:
                    stats.hit('faults', 'interrupted job')
                    continue
                clean = {k: j[k] for k in ('fn', 'args', 'form') if k in j}
                key = core.digest(clean)
                if key not in cache:
                    cache[key] = cold(clean)
                if unbound(cache[key]) and 'spoilt' not in j:
                    v = {'kind': 'not a function of its inputs', 'what': 'job %d (%s) needs something besides its '
                         'arguments: %s' % (i, j['fn'], cache[key]['raised'])}
                    break
                if not jobs.agree(g['r'], cache[key]):
                    v = {'kind': 'job result', 'what': 'job %d (%s) differs from the same job in a fresh process'
                         % (i, j['fn']), 'got': clip(g['r']), 'expected': clip(cache[key])}
                    break
            info = {'digest': core.digest([g['r'] for g in got]),
                    'path': core.digest([[j['fn'], bool(g['fired'])] for j, g in zip(plan['jobs'], got)] +
                                        [sorted(plan['env'])]),
                    'states': sorted({core.digest([j['fn'], j.get('reuse'), k]) for j in plan['jobs']
                                      for k in plan['env']})}
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return v, stats, info


def spawned(plan, folder):
    import json
    import subprocess
    import sys
    env = dict(os.environ, PYTHONHASHSEED=str(plan['spawn']), HOME=folder, TMPDIR=folder)
    p = subprocess.run([sys.executable, '-B', '-X', 'pycache_prefix=' + folder, '-m', 'sim.spawn', folder],
                       input=json.dumps(plan).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       cwd=core.VERIF, env=env, timeout=200)
    if p.returncode != 0:
        raise core.HarnessError('spawned interpreter: ' + p.stderr.decode()[-800:])
    got, cnt = json.loads(p.stdout.decode().strip().splitlines()[-1])
    return got, cnt


def shrink_history(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['jobs'] = core.ddmin_list(plan['jobs'], lambda js: bool(js) and fails(dict(plan, jobs=js)), budget)
    for k in list(plan['env']):
        q = copy.deepcopy(plan)
        del q['env'][k]
        budget[0] -= 1
        if fails(q):
            plan = q
    for i in range(len(plan['jobs'])):
        for k in ('reuse', 'fault'):
            if k in plan['jobs'][i]:
                q = copy.deepcopy(plan)
                del q['jobs'][i][k]
                budget[0] -= 1
                if fails(q):
                    plan = q
    return plan


# ------------------------------------------------- calls cut short, repeated
def gen_calls(rng, prop):
    """Runners and helpers with interrupts, on arguments the caller keeps."""
    n = rng.choice([1, 2, 3])
    seq = []
    fine = rng.random() < 0.25
    world = [dem.describe(rng, 'd0')] if prop == 'C07' and rng.random() < 0.25 else []
    for _ in range(n):
        if seq and rng.random() < 0.5:
            j = jobs.vary(rng, seq[-1])
            j['reuse'] = True
        elif prop == 'C07' and rng.random() < 0.2:
            j = gen_output(rng)
        elif world and rng.random() < 0.5:
            j = jobs.gen_terrain(rng, world)
            if j['fn'] == 'terrain_p2p':
                c = j['args'][1]
                j = {'fn': 'terrain_line', 'args': [j['args'][0], jobs.line(c if rng.random() < 0.6 else c + c[:1])]}
                j['args'][1]['geometry']['coordinates'] = [list(x) for x in j['args'][1]['geometry']['coordinates']]
        elif prop == 'C07' and rng.random() < 0.55:
            j = jobs.gen_helper(rng, rng.choice(['qtile', 'zlsq1', 'dlthx', 'hzns', 'qerfi']))
            if rng.random() < 0.1:
                j = {'fn': 'interdecile', 'args': [[rng.randrange(0, 300) for _ in range(rng.randrange(3, 60))]]}
        else:
            j = jobs.gen_runner(rng, small=True)
        j = copy.deepcopy(j)
        if rng.random() < 0.25:
            j = jobs.reform(rng, j)
        j.pop('at', None)
        if rng.random() < 0.85:
            j['at'] = [[rng.choice(sorted(EXCS)), session.bias(rng)] for _ in range(rng.choice([1, 1, 2, 3]))]
        seq.append(j)
    return {'world': 'calls', 'prop': prop, 'jobs': seq, 'fine': fine, 'dems': world}


def gen_output(rng):
    from . import storage
    if rng.random() < 0.5:
        return {'fn': 'csv', 'args': [rng.choice(storage.CSV_MODULES), storage.table(rng, rng.choice([1, 2, 30, 120]))]}
    return {'fn': 'shp', 'args': [rng.choice(storage.SHP_MODULES), storage.features(rng, rng.choice([1, 2, 12, 70]))]}


def exec_calls(plan, disturb):
    out = []
    pool = {}
    for j in plan['jobs']:
        args = jobs.args_of(j, None, pool)
        before = core.plain(args)
        ent = {}
        faults = list(j.get('faults', ())) if disturb else []
        while True:
            f = faults.pop(0) if faults else None
            st = sched.Stepper(plan['fine'], f['step'] if f else None, EXCS[f['exc']] if f else KeyboardInterrupt,
                               cap=20_000_000)
            err = None
            try:
                if f or not disturb:
                    with st:
                        r = jobs.call(j, args)
                else:
                    r = jobs.call(j, args)
            except (Exception, KeyboardInterrupt, sched.StepCap) as error:
                err = error
            bad = lost(before, core.plain(args), j['args'])
            if bad and 'mutated' not in ent:
                ent['mutated'] = '%s, after %s' % (bad, 'an interrupted call' if st.fired else 'a failed call'
                                                   if err is not None else 'a completed call')
            if st.fired:
                ent.setdefault('fired', []).append([f['exc'], st.fired])
                if err is None or not sched.reaches(err, st.exc):
                    ent['swallowed'] = '%s at %s' % (f['exc'], st.fired)
                if err is not None:
                    continue
            ent['steps'] = st.n
            ent['r'] = {'raised': type(err).__name__} if err is not None else r
            break
        out.append(ent)
    return out


def lost(before, after, supplied):
    """What the caller supplied and does not find again (records may gain keys,
    and keys which an earlier run left in a record are not the caller's)."""
    for i, (b, a, s) in enumerate(zip(before, after, supplied)):
        if isinstance(s, dict):
            for k in s:
                if k not in a or not same(a[k], b[k], rel=0):
                    return 'argument %d, %r: %s became %s' % (i, k, clip(b[k], 120), clip(a.get(k), 120))
        elif not same(a, b, rel=0):
            return 'argument %d: %s became %s' % (i, clip(b, 120), clip(a, 120))
    return None


def run_calls(plan):
    stats = core.Stats()
    plan = copy.deepcopy(plan)
    folder = scratch()
    try:
        with DEMs(plan.get('dems')):
            return run_calls_in(plan, folder, stats)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run_calls_in(plan, folder, stats):
    jobs.OUT_DIR[0] = os.path.join(folder, 'out')
    quiet = core.ask(at_home, folder, exec_calls, plan, False)
    for j, e in zip(plan['jobs'], quiet):
        if 'at' in j and 'faults' not in j:
            j['faults'] = [{'exc': x, 'step': 1 + int(f * e['steps'])} for x, f in j['at']]
    got = core.ask(at_home, folder, exec_calls, plan, True)
    v = None
    stats.hit('operations', n=len(got))
    for i, (j, e, ref) in enumerate(zip(plan['jobs'], got, quiet)):
        stats.hit('jobs', j['fn'])
        for exc, place in e.get('fired', ()):
            stats.hit('faults', exc)
            stats.hit('places', place)
        if v:
            continue
        if plan['prop'] == 'C07':
            bad = e.get('mutated') or ref.get('mutated')
            if bad:
                v = {'kind': "the caller's data changed", 'what': 'call %d (%s): %s' % (i, j['fn'], bad)}
        else:
            if e.get('swallowed'):
                v = {'kind': 'the exception did not reach the caller',
                     'what': 'call %d (%s): the exception did not reach the caller: %s' % (i, j['fn'], e['swallowed'])}
            elif not jobs.agree(e['r'], ref['r']):
                v = {'kind': 'differs', 'what': 'call %d (%s): the repeated run differs from an undisturbed one'
                     % (i, j['fn']), 'got': clip(e['r']), 'expected': clip(ref['r']), 'faults': e.get('fired')}
    info = {'digest': core.digest([[e['r'], e.get('fired')] for e in got]),
            'path': core.digest([[j['fn'], e.get('fired')] for j, e in zip(plan['jobs'], got)]),
            'states': [core.digest([j['fn'], f]) for j, e in zip(plan['jobs'], got) for f in e.get('fired', ())]}
    return v, stats, info


def shrink_calls(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['jobs'] = core.ddmin_list(plan['jobs'], lambda js: bool(js) and fails(dict(plan, jobs=js)), budget)
    for i, j in enumerate(plan['jobs']):
        if 'at' in j and budget[0] > 0:
            def with_at(at):
                q = copy.deepcopy(plan)
                q['jobs'][i]['at'] = at
                return q
            plan['jobs'][i]['at'] = core.ddmin_list(j['at'], lambda at: fails(with_at(at)), budget)
    return plan
