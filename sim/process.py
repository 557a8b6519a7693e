"""Sessions that are saved and restored (C14), predictions started in the middle
of others (C15), and what calls leave behind in the process (C16)."""
import atexit
import copy
import decimal
import gc
import locale
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import warnings

from . import core, dem, jobs, params, sched, session, shim, storage
from .core import same
from .parallel import DEMs, at_home, clip, cold, count_fine, scratch, _shared

EXCS = session.EXCS


# ------------------------------------------------------------- C14: restart
# A plan has the operations of one session and a list of events, in order:
#   {'at': i, 'do': 'copy'}              from operation i on, the work goes on with a copy; the
#                                        original is used for something else in between
#   {'at': i, 'do': 'move'}              the session is pickled and goes on in a new process
#   {'at': i, 'do': 'crash', 'back': b, 'frac': f}
#                                        the process ends in operation i, and a new one starts from
#                                        what was saved before operation b

def gen_restart(rng):
    plan = session.gen(rng, rng.choice(['C02', 'C02', 'C01']))
    ops = [op for op in plan['ops'] if op['s'] == 0][:40]
    for op in ops:
        op.pop('at', None)
    n = len(ops)
    events = []
    for i in sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 2, 3, 4])))) if n > 1 else []:
        k = rng.random()
        if k < 0.4:
            events.append({'at': i, 'do': 'copy', 'how': rng.choice(['deepcopy', 'pickle', 'pickle', 'reload']),
                           'other': rng.randrange(1 << 30), 'n': rng.choice([0, 1, 3, 6, 12]),
                           'keep': rng.random() < 0.5})
        elif k < 0.65:
            events.append({'at': i, 'do': 'move'})
        else:
            lo = events[-1]['at'] if events else 0
            events.append({'at': i, 'do': 'crash', 'back': rng.randrange(lo, i + 1), 'frac': rng.random()})
    return {'world': 'restart', 'prop': 'C14', 'ops': ops, 'events': events}


def others(seed, s, n, known):
    """Something else done with a session that has been copied, or with its copy."""
    rng = random.Random(seed)
    ops = []
    for _ in range(n):
        k = rng.random()
        again = [op for op in known if op['op'] == ('dist' if k < 0.7 else 'q')]
        if k >= 0.35 and again and rng.random() < 0.7:
            # what the other one is going to be asked, too
            ops.append(copy.deepcopy(rng.choice(again)))
        elif k < 0.35:
            kind = rng.choice(['area', 'p2p'])
            p = params.area(rng) if kind == 'area' else params.p2p(rng, 12)
            ops.append({'s': 0, 'op': kind, 'p': p, 'clear': rng.random() < 0.5, 'inplace': rng.random() < 0.5})
        elif k < 0.7:
            ops.append({'s': 0, 'op': 'dist', 'd': params.logu(rng, 1e3, 1e6)})
        else:
            ops.append({'s': 0, 'op': 'q', 'z': [params.deviate(rng) for _ in range(3)]})
    for op in ops:
        step(s, op)


def step(s, op, stepper=None):
    """One operation, as in session.execute."""
    if not s.possible(op):
        return {'skip': True}
    if op['op'] in ('area', 'p2p'):
        try:
            s.setup(op)
        except Exception as error:
            s.mode = None
            return {'raised': type(error).__name__}
    ent, err = session.attempt(s, op, stepper)
    if err is not None and op['op'] in ('area', 'p2p'):
        s.mode = None
    return ent


def segment(ops, blob, lo, hi, events, crash=None, save=True):
    """In one process: operations lo..hi-1 from a saved session.  -> (history, saved)"""
    s = pickle.loads(blob) if blob else session.Session()
    out = []
    for i in range(lo, hi):
        for e in events:
            if e['at'] == i and e['do'] == 'copy':
                t = pickle.loads(pickle.dumps(s)) if e['how'] == 'pickle' else copy.deepcopy(s)
                if e.get('keep'):
                    s, t = t, s
                others(e['other'], s, e['n'], ops[i:])
                s, t = t, s
                if e['how'] == 'reload':    # both are saved and dropped, and a part of the memory is used again
                    a, was = pickle.dumps(s), id(t.prop)
                    s = t = None
                    tries = []
                    for _ in range(60):     # until the record lies where that of the other one lay
                        s = pickle.loads(a)
                        tries.append(s)
                        if id(s.prop) == was:
                            break
                    del tries
        out.append(step(s, ops[i]))
    if crash is not None and hi < len(ops):
        st = sched.Stepper(target=1 + int(crash * 400))
        step(s, ops[hi], st)
        os._exit(shim.CRASHED)
    return out, pickle.dumps(s) if save else None


def run_restart(plan):
    stats = core.Stats()
    ops, events = plan['ops'], plan['events']
    ref = core.ask(segment, ops, None, 0, len(ops), [], None, False)[0]
    hist = [None] * len(ops)
    v = None
    # processes: a new one at each move or crash
    blob, lo = None, 0
    saved = {0: None}
    try:
        for e in events + [{'at': len(ops), 'do': 'end'}]:
            if e['do'] == 'copy':
                continue
            if e['do'] == 'crash':
                back = max(lo, min(e['back'], e['at']))
                h, b = must(segment, ops, blob, lo, back, events)
                hist[lo:back] = h
                got = core.in_child(segment, ops, b, back, e['at'], events, e['frac'])
                if got[0] == 'died':
                    stats.hit('faults', 'process ended in the middle of a call')
                elif got[0] == 'raised':
                    raise Bad(got[1])
                blob, lo = b, back
                continue
            h, blob = must(segment, ops, blob, lo, e['at'], events)
            hist[lo:e['at']] = h
            lo = e['at']
            if e['do'] == 'move':
                stats.hit('faults', 'moved to another process')
    except Bad as error:
        v = {'kind': 'cannot be saved', 'what': 'the session cannot be saved or restored: %s' % str(error)[:300]}
    stats.hit('faults', 'copied', n=sum(e['do'] == 'copy' for e in events))
    stats.hit('operations', n=len(ops))
    for i, (g, r) in enumerate(zip(hist, ref)):
        if v or g is None:
            break
        stats.hit('ops', ops[i]['op'])
        if ('raised' in g) != ('raised' in r) or ('skip' in g) != ('skip' in r) or not same(g.get('out'), r.get('out')) or \
                ('raised' not in g and g.get('kwx') != r.get('kwx')):
            v = {'kind': 'differs after restoring', 'what': 'operation %d (%s) differs from that of the session which was '
                 'never copied or moved' % (i, ops[i]['op']), 'got': g, 'expected': r}
    info = {'digest': core.digest([hist]), 'path': core.digest([[o['op'] for o in ops], [[e['at'], e['do']] for e in events],
                                                               [g and g.get('kwx') for g in hist]]),
            'states': sorted({core.digest([e['do'], ops[e['at']]['op'], ops[e['at'] - 1]['op']]) for e in events
                              if e['at'] < len(ops)})}
    return v, stats, info


class Bad(Exception):
    pass


def must(fn, *args):
    kind, val = core.in_child(fn, *args)
    if kind != 'ok':
        raise Bad('%s: %s' % (kind, val))
    return val


def shrink_restart(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['events'] = core.ddmin_list(plan['events'], lambda e: fails(dict(plan, events=e)), budget)
    i = len(plan['ops']) - 1
    while i >= 0 and budget[0] > 0:
        q = copy.deepcopy(plan)
        del q['ops'][i]
        ok = True
        for e in q['events']:
            if e['at'] > i:
                e['at'] -= 1
            if e.get('back', 0) > i:
                e['back'] -= 1
            ok = ok and e['at'] <= len(q['ops'])
        budget[0] -= 1
        if ok and q['ops'] and fails(q):
            plan = q
        i -= 1
    return plan


# -------------------------------------------------------- C15: re-entrance
def gen_nested(rng):
    world = dem.several(rng, rng.choice([1, 2])) if rng.random() < 0.2 else []
    shared = [jobs.profile(rng) for _ in range(2)]
    base = jobs.gen_any(rng, world, (3, 4, 3, 2))
    inner = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        inner.append(jobs.vary(rng, base) if rng.random() < 0.75 else jobs.gen_any(rng, world, (3, 4, 1, 1)))
        if rng.random() < 0.06:
            inner[-1] = jobs.spoil(rng, inner[-1])
    for j in [base] + inner:
        if j['fn'] in ('zlsq1', 'dlthx', 'hzns') and rng.random() < 0.5 and 'spoilt' not in j:
            k = rng.randrange(2)
            j['shared'] = [0, k]
            j['args'][0] = list(shared[k])
            length = shared[k][0] * shared[k][1]
            j['args'][1:] = [length] + j['args'][2:] if j['fn'] == 'hzns' else [0.1 * length, 0.9 * length]
    return {'world': 'nested', 'prop': 'C15', 'jobs': [base] + inner, 'shared': shared, 'dems': world,
            'fine': rng.random() < 0.35, 'points': [rng.random() for _ in range(rng.choice([2, 4, 8, 12]))],
            'deep': rng.choice([0, 0, 0, 0.3])}


class Nest:
    """Runs inner jobs at decided steps of repository code of the outer one."""

    def __init__(self, plan, shared, targets):
        self.plan, self.shared, self.targets = plan, shared, targets
        self.n = 0
        self.k = 0
        self.results = []
        self.places = []
        self.glow = 0
        self.what = 'opcode' if plan['fine'] else 'line'
        self.hot = random.Random(core.derive(*plan['points']))

    def _global(self, frame, event, arg):
        if not sched._ours(frame.f_code):
            return None
        if self.plan['fine']:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event != self.what:
            return self._local
        self.n += 1
        go = self.n in self.targets
        if frame.f_lineno in sched.hot_lines(frame):
            self.glow = 12 if self.plan['fine'] else 3
        if self.glow:                       # at a hot line or just after it
            self.glow -= 1
            if not go and len(self.places) < 24 and self.hot.random() < 0.25:
                go = True
        if go:
            inner = self.plan['jobs'][1:]
            i = self.k % len(inner)
            self.k += 1
            self.places.append('%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            try:
                self.results.append([i, self.inner(inner[i])])
            except sched.Deadlock as error:
                self.results.append([i, {'raised': 'Deadlock: %s' % error}])
        return self._local

    def inner(self, job):
        if self.plan['deep'] and self.hot.random() < self.plan['deep']:
            # one more level: the trace hook does not see itself, so this is decided by a profile hook
            todo = [True]

            def prof(frame, event, arg):
                if event == 'call' and todo and sched._ours(frame.f_code) and self.hot.random() < 0.2:
                    todo.clear()
                    sys.setprofile(None)
                    i = self.k % (len(self.plan['jobs']) - 1)
                    self.results.append([i, jobs.perform(self.plan['jobs'][1 + i], self.shared)])
            sys.setprofile(prof)
            try:
                return jobs.perform(job, self.shared)
            finally:
                sys.setprofile(None)
        return jobs.perform(job, self.shared)

    def __enter__(self):
        sys.settrace(self._global)

    def __exit__(self, *_):
        sys.settrace(None)


def exec_nested(plan, targets):
    shared = _shared(plan)
    n = Nest(plan, shared, targets)
    r = jobs.perform(plan['jobs'][0], shared, stepper=n)
    return {'outer': r, 'inner': n.results, 'places': n.places, 'steps': n.n}


def run_nested(plan):
    stats = core.Stats()
    with DEMs(plan['dems']):
        total = core.ask(count_fine, plan['jobs'][0], _shared(plan), plan['fine'])
        targets = {1 + int(x * total) for x in plan['points']}
        folder = scratch()
        try:
            got = core.ask(at_home, folder, exec_nested, plan, targets)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        stats.hit('operations', n=1 + len(got['inner']))
        stats.hit('faults', 'prediction started in the middle of another', n=len(got['places']))
        for p in got['places']:
            stats.hit('places', p)
        for j in plan['jobs']:
            stats.hit('jobs', j['fn'])
        want = [cold(j, _shared(plan)) for j in plan['jobs']]
        v = None
        if not jobs.agree(got['outer'], want[0]):
            v = {'kind': 'outer prediction', 'what': 'the prediction (%s) in the middle of which others were started differs '
                 'from running alone' % plan['jobs'][0]['fn'], 'got': clip(got['outer']), 'expected': clip(want[0])}
        for i, r in got['inner']:
            if v is None and not jobs.agree(r, want[1 + i]):
                v = {'kind': 'inner prediction', 'what': 'the prediction (%s) started in the middle of another (%s) differs '
                     'from running alone' % (plan['jobs'][1 + i]['fn'], plan['jobs'][0]['fn']), 'got': clip(r),
                     'expected': clip(want[1 + i])}
        if v:
            v['faults'] = got['places'][:20]
        info = {'digest': core.digest([got['outer'], got['inner'], got['steps']]),
                'path': core.digest([[j['fn'] for j in plan['jobs']], got['places']]),
                'states': sorted({core.digest([plan['jobs'][0]['fn'], p]) for p in got['places']})}
    return v, stats, info


def shrink_nested(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['points'] = core.ddmin_list(plan['points'], lambda p: fails(dict(plan, points=p)), budget)
    if len(plan['jobs']) > 2:
        head = plan['jobs'][0]
        rest = core.ddmin_list(plan['jobs'][1:], lambda js: bool(js) and fails(dict(plan, jobs=[head] + js)), budget)
        plan['jobs'] = [head] + rest
    return plan


# --------------------------------------------- C16: the process afterwards
def settings():
    """The settings of a process which others in it rely on."""
    import numpy as np
    um = os.umask(0)
    os.umask(um)
    rs = np.random.get_state()
    out = {
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'umask': um,
        'signal handlers': {int(s): repr(signal.getsignal(s)) for s in signal.valid_signals()},
        'blocked signals': sorted(int(s) for s in signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        'timers': [signal.getitimer(t)[1] > 0 or signal.getitimer(t)[0] > 0 for t in
                   (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        'random state': core.digest(repr(random.getstate())),
        'numpy random state': core.digest([repr(rs[0]), rs[1].tolist(), rs[2:]]),
        'numpy error handling': np.geterr(),
        'numpy print options': repr(sorted(np.get_printoptions().items(), key=lambda kv: kv[0])),
        'decimal context': repr(decimal.getcontext()),
        'locale': locale.setlocale(locale.LC_ALL),
        'warning filters': repr(warnings.filters),
        'module search path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'garbage collector': [gc.isenabled(), gc.get_threshold()],
        'limits': {k: resource.getrlimit(getattr(resource, k)) for k in dir(resource) if k.startswith('RLIMIT_')},
        'priority': os.getpriority(os.PRIO_PROCESS, 0),
        'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        'display hooks': [id(sys.excepthook), id(sys.displayhook)],
        'switch interval': sys.getswitchinterval(),
        'number of cpus allowed': len(os.sched_getaffinity(0)),
        'csv dialects': sorted(__import__('csv').list_dialects()),
        'csv field limit': __import__('csv').field_size_limit(),
        'default socket timeout': __import__('socket').getdefaulttimeout(),
        'temporary directory': tempfile.tempdir,
        'time zone': __import__('time').tzname,
        'os functions': [id(getattr(os, k)) for k in ('open', 'remove', 'makedirs', 'getcwd', 'rename', 'replace')],
        'builtins': [id(getattr(__import__('builtins'), k)) for k in ('open', 'print', 'round', 'max', 'min', 'sum', 'float')],
        'math': [id(getattr(__import__('math'), k)) for k in ('sqrt', 'exp', 'log', 'sin', 'pi')],
        'numpy': [id(getattr(np, k)) for k in ('sqrt', 'log', 'percentile', 'interp')],
        'numpy error callback': repr(np.geterrcall()),
        'hooks': [id(threading.excepthook), id(sys.unraisablehook), id(sys.breakpointhook)],
    }
    if 'rasterio' in sys.modules:
        out['GDAL environment'] = sys.modules['rasterio'].env.hasenv()
    if 'pyproj' in sys.modules:
        out['PROJ'] = [sys.modules['pyproj'].network.is_network_enabled(), sys.modules['pyproj'].datadir.get_data_dir()]
    return out


def holdings(folder):
    """What a process holds and others need: descriptors, threads, children, temporary files."""
    gc.collect()
    fds = []
    for fd in sorted(int(x) for x in os.listdir('/proc/self/fd')):
        try:
            fds.append(os.readlink('/proc/self/fd/%d' % fd))
        except OSError:
            pass
    fds = sorted(f for f in fds if f != os.devnull and not f.startswith(('/proc/', 'pipe:', 'anon_inode:', 'socket:'))) + \
        ['%d pipes and sockets' % sum(f.startswith(('pipe:', 'anon_inode:', 'socket:')) for f in fds)]
    try:
        with open('/proc/self/task/%d/children' % os.getpid()) as f:
            kids = len(f.read().split())
    except OSError:
        kids = 0
    files = []
    for top in ('home', 'tmp', 'cwd'):
        for dp, dn, fn in os.walk(os.path.join(folder, top)):
            files += [os.path.relpath(os.path.join(dp, f), folder) for f in fn]
    return {'open files': fds, 'threads': threading.active_count(), 'children': kids, 'files elsewhere': sorted(files),
            'exit handlers': atexit._ncallbacks()}


def gen_left(rng):
    world = [dem.describe(rng, 'd0')] if rng.random() < 0.6 else []
    for d in world:
        if rng.random() < 0.3:
            d['nodata'] = True
            d['voids'] = [[0, 0, d['ny'], d['nx']]]
    seq = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.random()
        if k < 0.2:
            j = {'fn': 'csv', 'args': [rng.choice(storage.CSV_MODULES), storage.table(rng, rng.choice([1, 5, 300]))]}
        elif k < 0.4:
            j = {'fn': 'shp', 'args': [rng.choice(storage.SHP_MODULES), storage.features(rng, rng.choice([1, 3, 40]))]}
        elif k < 0.6 and world:
            j = jobs.gen_terrain(rng, world)
        else:
            j = jobs.gen_any(rng, world, (2, 3, 4, 4))
        j = copy.deepcopy(j)
        if j['fn'] not in ('csv', 'shp') and rng.random() < 0.15:
            j = jobs.spoil(rng, j)
        elif j['fn'] in ('csv', 'shp') and rng.random() < 0.35:
            j['io'] = [['rel', rng.choice([shim.WRITE, shim.WRITE, shim.OPEN, shim.CLOSE, shim.MKDIR]), rng.random(),
                        rng.choice([shim.ERR, shim.STICKY]), rng.choice(storage.HARD)]]
        elif j['fn'] in ('terrain_p2p', 'terrain_area') and rng.random() < 0.4:
            j['io'] = [['rel', rng.choice([shim.READ, shim.OPEN]), rng.random(), shim.STICKY, rng.choice([5, 13, 2])]]
        elif rng.random() < 0.5:
            j['at'] = [rng.choice(sorted(EXCS)), rng.random()]
        seq.append(j)
    return {'world': 'left', 'prop': 'C16', 'jobs': seq, 'dems': world, 'repeat': rng.choice([1, 1, 1, 4])}


def act(j, folder, k, stepper=None):
    """Perform one job; outputs go below folder/out."""
    if j['fn'] in ('csv', 'shp'):
        out = os.path.join(folder, 'out', 'r%d' % k)

        def fn():
            if j['fn'] == 'csv':
                storage.write_csv(j['args'][0], j['args'][1], out, 'r.csv')
            else:
                storage.write_shp(j['args'][0], j['args'][1], out, 'r.shp')
    else:
        def fn():
            jobs.call(j, copy.deepcopy(j['args']))
    try:
        if stepper is not None:
            with stepper:
                fn()
        else:
            fn()
        return 'done'
    except (Exception, KeyboardInterrupt) as error:
        name = type(error).__name__
        error.__traceback__ = None
        return name


def measure(j, folder, k):
    """Steps and file operations of a job by itself."""
    top = os.path.join(folder, 'out') if j['fn'] in ('csv', 'shp') else jobs.DEM_DIR[0]
    if 'io' in j:
        os.makedirs(os.path.join(folder, 'out'), exist_ok=True)
        shim.arm(top or folder)
        act(j, folder, k)
        c = shim.counts()
        shim.disarm()
        return c
    st = sched.Stepper(mark=True)
    act(j, folder, k, st)
    return st.n, st.hot[::1 + len(st.hot) // 4000]


def exec_left(plan, folder, sizes):
    out = []
    random.seed(5)
    signal.signal(signal.SIGINT, signal.default_int_handler)    # whoever started the check
    signal.signal(signal.SIGTERM, lambda *_: None)
    os.makedirs(os.path.join(folder, 'out'), exist_ok=True)
    tempfile.gettempdir()               # found out once, and no harm
    first = settings()
    done = set()
    k = 1000
    for j, size in zip(plan['jobs'], sizes):
        if j['fn'] not in done:             # what the libraries open once and for all
            done.add(j['fn'])
            had = holdings(folder)
            act({a: b for a, b in j.items() if a not in ('at', 'io')}, folder, k)
            k += 1
            has = holdings(folder)
            # (libraries open files of theirs, but nobody keeps the inputs or the results open)
            inputs = [f for f in has['open files'] if f.startswith((folder, jobs.DEM_DIR[0] or folder)) and f not in had['open files']]
            out.append([j['fn'], 'warming up', diff(first, settings()) + ['open files: ' + f for f in inputs] +
                        diff({m: had[m] for m in ('threads', 'children')}, has)])
        before = holdings(folder)
        ends = []
        for _ in range(plan['repeat']):
            st = None
            if 'at' in j:
                st = sched.Stepper(target=sched.spot(j['at'][1], size), exc=EXCS[j['at'][0]])
            if 'io' in j:
                shim.arm(os.path.join(folder, 'out') if j['fn'] in ('csv', 'shp') else jobs.DEM_DIR[0],
                         storage.place(j['io'], size))
            ends.append(act(j, folder, k, st))
            k += 1
            if 'io' in j:
                shim.disarm()
        now = diff(first, settings())
        left = diff(before, holdings(folder))
        out.append([j['fn'], ends[-1], now + left])
    return out


def diff(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, list) and isinstance(y, list):
                x, y = [v for v in x if v not in y], [v for v in y if v not in x or y.count(v) != a[k].count(v)]
            elif isinstance(x, dict):
                x, y = {m: v for m, v in x.items() if y.get(m) != v}, {m: v for m, v in y.items() if a[k].get(m) != v}
            out.append('%s: %s -> %s' % (k, clip(x, 200), clip(y, 200)))
    return out


def run_left(plan):
    stats = core.Stats()
    folder = scratch()
    try:
        with DEMs(plan['dems']):
            sizes = [core.ask(at_home, os.path.join(folder, 'm%d' % i), measure, j, folder, i)
                     if 'at' in j or 'io' in j else None for i, j in enumerate(plan['jobs'])]
            kind, got = core.in_child(at_home, os.path.join(folder, 'p'), exec_left, plan, os.path.join(folder, 'p'), sizes)
        if kind == 'died' and got < 0 and any('io' in j for j in plan['jobs']):
            got = []                        # GDAL does not survive some failing writes
            stats.hit('outcomes', 'process died of a storage fault')
        elif kind != 'ok':
            raise core.HarnessError('%s: %s' % (kind, got))
        v = None
        for fn, end, bad in got:
            stats.hit('jobs', fn)
            stats.hit('outcomes', end)
            stats.hit('operations')
            if bad and v is None:
                v = {'kind': 'left behind: ' + bad[0].split(':')[0], 'what': 'a call of %s, which ended as %s, left the '
                     'process changed: %s' % (fn, end, '; '.join(bad))}
        for j in plan['jobs']:
            if 'at' in j:
                stats.hit('faults', j['at'][0])
            for f in j.get('io', ()):
                stats.hit('faults', shim.name(f[1:2] + [0] + f[3:]))
            if 'spoilt' in j:
                stats.hit('faults', 'unusable input')
        info = {'digest': core.digest([g[:2] for g in got]), 'path': core.digest([[j['fn'], j.get('at'), j.get('io')]
                                                                                 for j in plan['jobs']]),
                'states': sorted({core.digest(g[:2]) for g in got})}
        return v, stats, info
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def shrink_left(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['jobs'] = core.ddmin_list(plan['jobs'], lambda js: bool(js) and fails(dict(plan, jobs=js)), budget)
    for i in range(len(plan['jobs'])):
        for k in ('at', 'io'):
            if k in plan['jobs'][i] and budget[0] > 0:
                q = copy.deepcopy(plan)
                del q['jobs'][i][k]
                budget[0] -= 1
                if fails(q):
                    plan = q
    return plan
