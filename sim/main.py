"""Command line: check a property, or replay one recorded violation."""
import copy
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time

from . import core

sys.path.insert(0, core.REPO + '/src')

LIGHT_JOBS = ('qerf', 'qerfi', 'qtile', 'zlsq1', 'dlthx', 'hzns', 'curv', 'fht', 'aknfe', 'ahd', 'h0f', 'qlrps', 'session')

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def load(kind):
    """Import the code under simulation into this process and nothing more: it
    becomes the pristine image which every simulated execution is forked from."""
    import warnings
    warnings.simplefilter('ignore')
    from . import sched
    sched.install_locks()
    import numpy                                        # noqa: F401
    from . import session, jobs                         # noqa: F401
    session.lib()
    for h in jobs.HELPERS:
        jobs.helper(h)
    if kind == 'heavy':
        if core.REPO + '/scripts' not in sys.path:
            sys.path.insert(0, core.REPO + '/scripts')
        os.environ.setdefault('CPL_LOG', '/dev/null')
        here = os.getcwd()
        os.chdir(core.REPO)
        try:
            jobs.scripts()
        finally:
            os.chdir(here)
        import locale                                   # noqa: F401
        import csv, runpy, shutil                       # noqa: F401,E401
        import fiona, rasterio, rasterstats, pyproj     # noqa: F401,E401
        from . import parallel, storage, elev, runners, records, process, workers  # noqa: F401


# ------------------------------------------------------------- the worlds
def worlds():
    from . import session
    w = {'session': (session.run, session.shrink), 'sweep': (session.run_sweep, session.shrink_sweep)}
    try:
        import fiona                                    # noqa: F401
    except ImportError:
        pass
    from . import parallel, storage, elev, runners, records, process, workers
    w['threads'] = (parallel.run_threads, parallel.shrink_threads)
    w['history'] = (parallel.run_history, parallel.shrink_history)
    w['calls'] = (parallel.run_calls, parallel.shrink_calls)
    w['csv'] = (storage.run_csv, storage.shrink_csv)
    w['csvkill'] = (storage.run_csvkill, storage.shrink_runs)
    w['shp'] = (storage.run_shp, storage.shrink_runs)
    w['procs'] = (storage.run_procs, storage.shrink_procs)
    w['wthreads'] = (storage.run_wthreads, storage.shrink_wthreads)
    w['elev'] = (elev.run, elev.shrink)
    w['runners'] = (runners.run, runners.shrink)
    w['runner8'] = (runners.run_c08, runners.shrink_c08)
    w['inputs'] = (runners.run_inputs, runners.shrink_inputs)
    w['records'] = (records.run, records.shrink)
    w['restart'] = (process.run_restart, process.shrink_restart)
    w['nested'] = (process.run_nested, process.shrink_nested)
    w['pool'] = (workers.run_pool, workers.shrink_pool)
    w['left'] = (process.run_left, process.shrink_left)
    return w


LIGHT_WORLDS = ('session', 'sweep')


def campaigns():
    """property -> [(name, image, generator, quick runs, thorough runs)]"""
    from . import session, parallel, storage, elev, runners, records, process, workers

    def ses(prop):
        return lambda rng: session.gen(rng, prop)

    def sweep(prop):
        return lambda rng: session.gen_sweep(rng, prop)

    def calls(prop):
        return lambda rng: parallel.gen_calls(rng, prop)

    def recs(prop):
        return lambda rng: records.gen(rng, prop)
    return {
        'C01': [('sessions', 'light', ses('C01'), 1600, 60000),
                ('records', 'heavy', recs('C01'), 150, 6000)],
        'C02': [('sessions', 'light', ses('C02'), 1600, 60000),
                ('records', 'heavy', recs('C02'), 250, 10000)],
        'C03': [('sessions', 'light', ses('C03'), 1600, 60000),
                ('sweeps', 'light', sweep('C03'), 800, 30000),
                ('records', 'heavy', recs('C03'), 200, 8000)],
        'C04': [('sweeps', 'light', sweep('C04'), 800, 30000),
                ('sessions', 'light', ses('C04'), 4000, 150000),
                ('runners', 'heavy', calls('C04'), 500, 15000)],
        'C05': [('threads', 'heavy', parallel.gen_threads, 1000, 30000),
                ('terrain', 'heavy', parallel.gen_threads_terrain, 250, 8000)],
        'C06': [('histories', 'heavy', parallel.gen_history, 1000, 30000),
                ('interpreters', 'heavy', lambda r: parallel.gen_history(r, True), 24, 600)],
        'C07': [('sweeps', 'light', sweep('C07'), 400, 15000),
                ('sessions', 'light', ses('C07'), 2500, 100000),
                ('calls', 'heavy', calls('C07'), 900, 30000)],
        'C08': [('tables', 'heavy', storage.gen_c08, 1500, 60000),
                ('runs', 'heavy', runners.gen_c08, 40, 1500)],
        'C09': [('kills', 'heavy', storage.gen_c09, 1600, 30000)],
        'C10': [('processes', 'heavy', storage.gen_c10, 700, 25000),
                ('threads', 'heavy', storage.gen_c10_threads, 600, 12000),
                ('scripts', 'heavy', storage.gen_c10_scripts, 64, 2500)],
        'C11': [('finding', 'heavy', storage.gen_known11, 1, 1), ('shapefiles', 'heavy', storage.gen_c11, 600, 15000)],
        'C12': [('finding', 'heavy', elev.gen_known, 1, 1), ('read once', 'heavy', elev.gen_known_read, 1, 1),
                ('queries', 'heavy', elev.gen, 300, 10000)],
        'C13': [('runners', 'heavy', runners.gen, 90, 2500)],
        'C14': [('restarts', 'light', process.gen_restart, 2500, 50000)],
        'C15': [('nested', 'heavy', process.gen_nested, 800, 20000)],
        'C16': [('calls', 'heavy', process.gen_left, 800, 20000)],
        'C17': [('forks', 'heavy', workers.gen_forks, 400, 15000),
                ('pools', 'heavy', workers.gen_pool, 300, 12000)],
        'C18': [('tables', 'heavy', storage.gen_twins, 600, 25000),
                ('threads', 'heavy', storage.gen_twin_threads, 400, 15000),
                ('scripts', 'heavy', storage.gen_twin_scripts, 32, 1200)],
        'C19': [('runs', 'heavy', runners.gen_inputs, 320, 12000)],
    }


# --------------------------------------------------------------- one batch
def plan_for(gen, seed, prop, camp, i):
    return gen(core.rng_for(seed, prop, camp, i))


def one(run, plan):
    """One run.  An execution that does not come back, or in which the code under simulation fails where
    nothing was wrong (a reference, a copy), is a verdict and not a failure of the check."""
    try:
        return run(plan)
    except core.HarnessError as error:
        text = str(error)
        if isinstance(error, core.Stuck):
            v = {'kind': 'does not come back', 'what': text}
        elif core.REPO + '/' in text:
            lines = text.strip().splitlines()
            v = {'kind': 'fails by itself', 'what': 'an execution without faults failed: %s' % lines[0][:300],
                 'got': '\n'.join(lines[-8:])}
        else:
            raise
        return v, core.Stats(), {'digest': core.digest(v['kind']), 'path': core.digest([v['kind']]), 'states': []}


def worker(k, n, prop, camp, gen, seed, total, deadline, out):
    """Runs k, k+n, k+2n, ...  Streams pickled messages to the parent."""
    table = worlds()
    stats = {}
    seen = {'path': set(), 'state': set()}
    done = 0
    nontrivial = 0
    rerun = same_again = 0
    samples = []

    def send(msg):
        data = pickle.dumps(msg)
        data = len(data).to_bytes(8, 'big') + data
        while data:
            data = data[os.write(out, data):]
    try:
        i = k
        while i < total and time.monotonic() < deadline:
            plan = plan_for(gen, seed, prop, camp, i)
            v, st, info = one(table[plan['world']][0], plan)
            if v is None and (i % 37 == 11):        # one seed is one execution
                rerun += 1
                _, _, info2 = one(table[plan['world']][0], plan)
                if info2['digest'] != info['digest']:
                    v = {'kind': 'nondeterminism', 'what': 'two executions of the same plan differ although '
                         'schedule, faults, clock and entropy are the same', 'rare': True}
                else:
                    same_again += 1
            core.merge(stats, st)
            done += 1
            if info['path'] not in seen['path']:
                seen['path'].add(info['path'])
                if st.get('operations', 0) > 1 or st.get('faults'):
                    nontrivial += 1
            for s in info.get('states', ()):
                seen['state'].add(s)
            if k == 0 and len(samples) < 2:
                samples.append({'run': i, 'plan': brief(plan), 'digest': info['digest'], 'faults': st.get('faults', {})})
            if v is not None:
                send(('violation', i, plan, v))
                break
            i += n
        send(('done', k, done, nontrivial, stats, seen, samples, rerun, same_again, i < total))
    except BaseException as error:
        import traceback
        send(('error', k, '%s\n%s' % (error, traceback.format_exc())))
    finally:
        os._exit(0)


def brief(plan, limit=1500):
    s = json.dumps(plan, default=repr)
    if len(s) <= limit:
        return json.loads(s)
    return s[:limit] + '...'


def batch(prop, camp, gen, seed, total, deadline):
    """-> (violations [(i, plan, v)], merged info)"""
    pids, pipes = [], {}
    for k in range(WORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            for fd in list(pipes):
                os.close(fd)
            os.close(r)
            worker(k, WORKERS, prop, camp, gen, seed, total, deadline, w)
        os.close(w)
        pids.append(pid)
        pipes[r] = b''
    msgs = []
    hard = deadline + 300
    stop = False
    while pipes and not stop:
        ready = select.select(list(pipes), [], [], max(0.1, hard - time.monotonic()))[0]
        if not ready and time.monotonic() > hard:
            msgs.append(('error', -1, 'workers did not finish'))
            break
        for fd in ready:
            part = os.read(fd, 1 << 20)
            if not part:
                os.close(fd)
                del pipes[fd]
                continue
            buf = pipes[fd] + part
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], 'big')
                if len(buf) < 8 + n:
                    break
                m = pickle.loads(buf[8:8 + n])
                msgs.append(m)
                if m[0] in ('violation', 'error'):
                    stop = True
                buf = buf[8 + n:]
            pipes[fd] = buf
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
    for p in pids:
        os.waitpid(p, 0)
    for fd in pipes:
        os.close(fd)
    errors = [m for m in msgs if m[0] == 'error']
    viols = sorted([m[1:] for m in msgs if m[0] == 'violation'], key=lambda m: m[0])
    info = {'runs': 0, 'nontrivial': 0, 'stats': {}, 'paths': set(), 'states': set(), 'samples': [], 'rerun': 0,
            'again': 0, 'cut': 0}
    for m in msgs:
        if m[0] == 'done':
            _, k, done, non, st, seen, samples, rerun, again, cut = m
            info['runs'] += done
            core.merge(info['stats'], st)
            info['paths'] |= seen['path']
            info['states'] |= seen['state']
            info['samples'] += samples
            info['rerun'] += rerun
            info['again'] += again
            info['cut'] += bool(cut)
            info['nontrivial'] += non
    if errors and not viols:
        raise core.HarnessError('worker %s: %s' % errors[0][1:])
    return viols, info


# -------------------------------------------------------------- violations
def minimise(plan, v, budget=250, wall=100):
    table = worlds()
    run, shrink = table[plan['world']]
    end = time.monotonic() + wall

    def fails(p):
        if time.monotonic() > end:
            return False
        try:
            w, _, _ = one(run, p)
        except core.HarnessError:
            return False
        return w is not None and w['kind'] == v['kind']
    if v['kind'] in ('nondeterminism', 'does not come back'):
        return plan, v
    left = [budget]
    small = shrink(plan, fails, left)
    w, _, _ = one(run, small)
    if w is None:
        small, w = plan, v
    return small, w


def report(prop, seed, camp, i, plan, v, image):
    # the harness itself must not be touched by the code under test: minimise in a child
    try:
        small, w = core.ask(minimise, plan, v, wall=200)
    except core.HarnessError as error:
        print('minimisation failed: %s' % str(error).splitlines()[0])
        small, w = plan, v
    os.makedirs(os.path.join(core.VERIF, 'replays'), exist_ok=True)
    path = os.path.join(core.VERIF, 'replays', '%s-%s.json' % (prop, core.digest([plan, v['kind']])))
    doc = {'property': prop, 'base_seed': seed, 'campaign': camp, 'run': i, 'run_seed': core.derive(seed, prop, camp, i),
           'image': image, 'violation': w, 'plan': small, 'original_plan_operations': size_of(plan),
           'minimised_operations': size_of(small)}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=repr)
    return path, w


def size_of(plan):
    for k in ('ops', 'jobs', 'runs', 'steps', 'seq', 'procs', 'threads', 'faults'):
        if k in plan:
            return len(plan[k])
    return 1


def replay(path, times=3):
    """Exit 1 if the recorded violation shows again."""
    with open(path) as f:
        doc = json.load(f)
    load(doc['image'])
    setup_scratch()
    run = worlds()[doc['plan']['world']][0]
    if doc['violation']['kind'] == 'nondeterminism':
        seen = {core.ask(one, run, doc['plan'], wall=280)[2]['digest'] for _ in range(20)}
        if len(seen) > 1:
            print('VIOLATION property=%s replay=%s' % (doc['property'], path))
            print('  20 executions of the same plan gave %d different histories' % len(seen))
            return 1
        return 0
    v, _, info = core.ask(one, run, doc['plan'], wall=280)
    if v is None:
        print('the recorded violation does not show')
        return 0
    print('VIOLATION property=%s replay=%s' % (doc['property'], path))
    print('  ' + v['what'])
    for k in ('got', 'expected', 'faults'):
        if k in v:
            print('  %s: %s' % (k, str(v[k])[:800]))
    print('  history %s' % info['digest'])
    return 1


def setup_scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='vsim', dir=base)
    os.environ['VERIF_SCRATCH'] = d
    home = os.path.join(d, 'home')          # nothing is written into the real one
    os.mkdir(home)
    os.environ['HOME'] = os.environ['TMPDIR'] = os.environ['XDG_CACHE_HOME'] = home
    tempfile.tempdir = None
    os.chdir(home)
    pid = os.getpid()
    import atexit

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    return d


def confirm(path):
    """Replay in a fresh process; the violation must show there too."""
    import subprocess
    p = subprocess.run([os.path.join(core.VERIF, 'replay'), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300)
    return p.returncode == 1, p.stdout.decode(errors='replace')


# ------------------------------------------------------------------- check
REAL = {
    'light': ['src/itmlogic (all of it, as imported by its callers)'],
    'heavy': ['src/itmlogic', 'scripts/*.py', 'fiona, rasterio, rasterstats, GDAL, pyproj, shapely as installed',
              'CPython file layer, the file system of the scratch directory'],
}
STUB = {
    'light': ['points of interruption: decided by the simulator (trace hook)'],
    'heavy': ['thread scheduler: baton decided by the simulator', 'locks made by repository code: cooperative',
              'clock and entropy: preloaded seam', 'outcome of file operations below the scratch directory: preloaded seam',
              'process kill: _exit of a forked child at a file operation', 'elevation data: synthetic'],
}


def check(prop, tier):
    from . import evidence
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    wall = float(os.environ.get('VERIF_WALL', '420' if tier == 'quick' else '3000'))
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    print('property %s, tier %s, seed %d, %d workers' % (prop, tier, seed, WORKERS))
    load('light')
    setup_scratch()
    image = 'light'
    total = []
    found = None
    heavy = False
    for name, img, gen, quick, thorough in campaigns()[prop]:
        if img == 'heavy' and not heavy:
            load('heavy')
            heavy = True
            image = 'heavy'
        n = max(1, int((quick if tier == 'quick' else thorough) * scale))
        t1 = time.monotonic()
        left = wall - (t1 - t0)
        viols, info = batch(prop, name, gen, seed, n, t1 + max(20, left if img == 'heavy' else left * 0.7))
        info['wall'] = time.monotonic() - t1
        info['name'] = name
        info['planned'] = n
        total.append(info)
        print('  %-12s %6d runs in %6.1f s, %d distinct histories, %d states, %d re-executed'
              % (name, info['runs'], info['wall'], len(info['paths']), len(info['states']), info['rerun']))
        if viols:
            i, plan, v = viols[0]
            found = (name, i, plan, v)
            break
    for p, name, text in core.findings():
        if p == prop and any(name in t['stats'].get('known', {}) for t in total):
            print('KNOWN-FINDING: property=%s %s %s' % (p, name, text))
    code = 0
    if found:
        name, i, plan, v = found
        path, w = report(prop, seed, name, i, plan, v, image)
        ok, text = confirm(path)
        if not ok:
            # the minimised plan does not fail in a fresh process: fall back to the original plan
            with open(path) as f:
                doc = json.load(f)
            doc['plan'], doc['violation'] = plan, v
            with open(path, 'w') as f:
                json.dump(doc, f, indent=1, default=repr)
            ok, text = confirm(path)
        print('  run %d (seed %d): %s' % (i, core.derive(seed, prop, name, i), w['what']))
        if not ok:
            print('  note: the replay does not show the violation in a fresh process:\n' + text)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    evidence.write(prop, tier, seed, total, time.monotonic() - t0, 1 if found else 0,
                   REAL[image], STUB[image])
    return code


def main(argv):
    try:
        if argv[0] == 'replay':
            return replay(argv[1])
        return check(argv[0], argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except core.HarnessError as error:
        print('ERROR of the check itself: %s' % error)
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
