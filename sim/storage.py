"""The storage worlds (C08 to C13): real writers, readers and runners on a real
directory, with every file operation below that directory behind the preloaded
seam, and a simulated kill being the end of the (forked) process."""
import copy
import csv
import errno
import io
import json
import os
import runpy
import select
import shutil
import signal
import sys

from . import core, dem, jobs, params, sched, shim
from .core import same
from .parallel import clip, scratch

E = errno
HARD = [E.ENOSPC, E.EIO, E.EDQUOT, E.EROFS, E.EACCES, E.EFBIG]
CSV_MODULES = ['area', 'p2p', 'area_2tiles', 'p2p_2tiles']
SHP_MODULES = ['p2p', 'p2p_2tiles']


# ------------------------------------------------------------- running once
def under_faults(fn, args, root, faults, clock=None, count=False):
    """In a child: arm the seam, call, disarm, report."""
    lines = [f for f in faults if f[0] == shim.LINE]
    step = None
    if lines or count:
        step = sched.Stepper()
        if lines:
            step.target = 1 + lines[0][1]
            step.exc = KeyboardInterrupt if lines[0][2] == shim.CTRL_C else MemoryError
    seam = [f for f in faults if f[0] != shim.LINE]
    if clock is not None:
        shim.lib().vs_clock(clock * 10 ** 9, 1000)
    stay_inside(root)
    shim.arm(root, seam)
    try:
        try:
            if step:
                with step:
                    fn(*args)
            else:
                fn(*args)
            res = ['returned', None]
        except SystemExit as error:
            res = ['returned', None] if error.code in (None, 0) else ['raised', 'SystemExit %s' % error.code]
        except (Exception, KeyboardInterrupt) as error:
            res = ['raised', '%s: %s' % (type(error).__name__, str(error)[:200])]
    finally:
        counts = shim.counts() + [step.n if step else 0]
        hits = iter(shim.fired(seam))
        fired = [bool(step.fired) if f[0] == shim.LINE else next(hits) for f in faults]
        shim.disarm()
    return res + [counts, fired]


def stay_inside(root):
    """Whatever is written elsewhere than asked for lands below the scratch directory, too."""
    import tempfile
    other = os.path.join(os.path.dirname(root), 'elsewhere')
    os.makedirs(other, exist_ok=True)
    os.chdir(other)
    os.environ['TMPDIR'] = os.path.join(root, 'tmp-of-the-system')
    os.makedirs(os.environ['TMPDIR'], exist_ok=True)
    tempfile.tempdir = None


def once(fn, args, root, faults=(), clock=None, count=False):
    """-> dict(outcome: returned | raised | killed | died, ...)"""
    kind, val = core.in_child(under_faults, fn, args, root, list(faults), clock, count)
    if kind == 'ok':
        out = {'outcome': val[0], 'error': val[1], 'counts': val[2], 'fired': val[3]}
    elif kind == 'died' and val == shim.CRASHED:
        out = {'outcome': 'killed', 'error': None, 'fired': [f[2] in (shim.CRASH, shim.TORN, shim.AFTER)
                                                              for f in faults]}
    elif kind == 'died' and val < 0:
        out = {'outcome': 'died', 'error': 'signal %d' % -val, 'fired': [True] * len(faults)}
    else:
        raise core.HarnessError('%s: %s' % (kind, val))
    return out


def lined(faults):
    return any(f[1] == shim.LINE for f in faults)


def line_fault(rng):
    """An exception at a line of repository code, as Ctrl-C or a failing allocation cause it."""
    return ['rel', shim.LINE, rng.choice([rng.random(), 1 - 0.3 * rng.random()]), rng.choice([shim.CTRL_C, shim.CTRL_C,
                                                                                            shim.NO_MEMORY]), 0]


def tally(stats, faults, res):
    for f, hit in zip(faults, res.get('fired', ())):
        if hit:
            stats.hit('faults', shim.name(f))
    stats.hit('outcomes', res['outcome'])


# ------------------------------------------------------------------ CSV: data
def batchy(rng, most=4100):
    """A number of records at or next to a multiple of a usual batch size."""
    size = rng.choice([8, 10, 16, 20, 25, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2000, 2048])
    n = size * rng.choice([1, 1, 1, 2, 3]) + rng.choice([-1, 0, 0, 1, 1, 2])
    return n if n <= most else size // 2 + 1


def table(rng, rows=None):
    rows = rows or params.pick(rng, (4, lambda: rng.randrange(1, 40)), (3, lambda: rng.randrange(40, 400)),
                               (2, lambda: rng.randrange(400, 3000)), (3, lambda: batchy(rng)))
    style = rng.choice(['area', 'p2p', 'p2p', 'mixed'])
    odd = rng.random() < 0.15               # values which no range check expects
    out = []
    for i in range(rows):
        r = {'distance_km': rng.choice([77.8, i * 10, round(rng.uniform(1, 500), 3)])}
        if style != 'area':
            r['reliability_level_%'] = rng.choice([1, 10, 50, 90, 99])
        r['confidence_level_%'] = rng.choice([50, 90, 10])
        r['propagation_loss_dB'] = rng.uniform(60, 260)
        if odd and rng.random() < 0.2:
            r['propagation_loss_dB'] = rng.choice([-rng.uniform(1, 40), 0, 0.0, 1e-7 * rng.random(), float('nan'),
                                                   float('inf'), 1e22 * rng.random(), 999])
        if style == 'mixed':
            r['note'] = rng.choice(['a', 'b, c', 'say "x"', '', 'line', '\u00b13 dB \u2248', ' x ', 'two\nlines', "'", '007', 'tab\t', '#', ';',
                                    'nan', 'a, "b"\n', 'long ' * 60])
            r['tiny'] = rng.choice([1, 1, -1]) * params.logu(rng, 1e-9, 1e12)
        out.append(r)
    if rng.random() < 0.1:                  # the fields of later rows in another order
        ks = list(out[0])
        rng.shuffle(ks)
        out[1:] = [{k: r[k] for k in ks} if rng.random() < 0.5 else r for r in out[1:]]
    return out


def write_csv(module, data, directory, filename):
    jobs.scripts()[module].csv_writer(data, directory, filename)


def write_csv_checked(module, data, directory, filename):
    before = copy.deepcopy(data)
    try:
        write_csv(module, data, directory, filename)
    finally:
        if data != before or [list(d) for d in data] != [list(d) for d in before]:
            raise core.HarnessError('MUTATED')


def read_bytes(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except (FileNotFoundError, NotADirectoryError):
        return None


def csv_complete(raw, data):
    """None, or what is wrong with a supposedly complete table."""
    if raw is None:
        return 'there is no file'
    try:
        text = raw.decode('utf-8')
    except UnicodeDecodeError:
        return 'not text'
    rows = list(csv.reader(io.StringIO(text, newline='')))
    if not rows:
        return 'empty file'
    fields = list(data[0])
    if rows[0] != fields:
        return 'header %r' % rows[0]
    if len(rows) - 1 != len(data):
        return '%d rows instead of %d' % (len(rows) - 1, len(data))
    for i, (row, want) in enumerate(zip(rows[1:], data)):
        if len(row) != len(fields):
            return 'row %d has %d cells' % (i, len(row))
        for cell, k in zip(row, fields):
            w = want.get(k, '')
            if isinstance(w, (int, float)):
                try:
                    ok = same(float(cell), float(w), rel=0)
                except ValueError:
                    ok = False
            else:
                ok = cell == str(w)
            if not ok:
                return 'row %d: %s reads back as %r instead of %r' % (i, k, cell, w)
    return None


def target(rng):
    """Output folder (relative), and how much of it exists."""
    parts = [rng.choice(['results', 'out', 'a b'])] + [rng.choice(['x', 'y', 'run1'])
                                                       for _ in range(rng.choice([0, 0, 1, 2]))]
    return {'dir': os.path.join(*parts), 'exists': rng.choice([0, 0, len(parts), len(parts)])}


def prepare(root, tgt):
    parts = tgt['dir'].split('/')[:tgt['exists']]
    if parts:
        os.makedirs(os.path.join(root, *parts), exist_ok=True)
    return os.path.join(root, tgt['dir'])


# --------------------------------------------------------------------- C08
def gen_c08(rng):
    rows = table(rng)
    plan = {'world': 'csv', 'prop': 'C08', 'module': rng.choice(CSV_MODULES), 'rows': rows, 'target': target(rng),
            'old': table(rng) if rng.random() < 0.3 else None, 'faults': []}
    if len(rows) > 1 and rng.random() < 0.06:       # results of several kinds in one table
        plan['ragged'] = True
        r = rows[rng.randrange(1, len(rows))]
        if rng.random() < 0.7:
            r['fading_margin_dB'] = 12.5
        else:
            del r[rng.choice(sorted(r))]
        return plan
    mix = rng.random()
    n = rng.choice([1, 1, 2, 3])
    if mix < 0.12:
        n = 0
    elif mix < 0.2:
        n = rng.choice([0, 0, 1])
        plan['faults'].append(line_fault(rng))
    for _ in range(n):
        k = rng.random()
        if k < 0.3:
            plan['faults'].append(['rel', shim.WRITE, rng.random(), shim.SHORT, rng.randrange(1, 1 << 20)])
        elif k < 0.4:
            plan['faults'].append(['rel', rng.choice([shim.WRITE, shim.WRITE, shim.OPEN]), rng.random(), shim.ERR,
                                   E.EINTR])
        elif k < 0.68:
            plan['faults'].append(['rel', shim.WRITE, rng.random(), rng.choice([shim.ERR, shim.STICKY]),
                                   rng.choice(HARD)])
        elif k < 0.78:
            plan['faults'].append(['rel', shim.CLOSE, rng.random(), shim.ERR, rng.choice([E.EIO, E.ENOSPC, E.EDQUOT])])
        elif k < 0.88:
            plan['faults'].append(['rel', shim.OPEN, rng.random(), shim.ERR,
                                   rng.choice([E.EACCES, E.EMFILE, E.ENOSPC, E.EROFS, E.EIO])])
        elif k < 0.96:
            plan['faults'].append(['rel', shim.MKDIR, rng.random(), shim.ERR, rng.choice([E.EACCES, E.ENOSPC, E.EROFS])])
        else:
            plan['faults'].append(['rel', rng.choice([shim.RENAME, shim.SYNC]), rng.random(), shim.ERR, rng.choice(HARD)])
    return plan


def place(faults, counts):
    """Turn relative positions into operation numbers, given the counts of an
    undisturbed execution."""
    out = []
    for f in faults:
        if f[0] == 'rel':
            _, kind, u, fault, arg = f
            if kind >= len(counts) or counts[kind] == 0:
                out.append([kind, 0, fault, arg])
            else:
                out.append([kind, min(counts[kind] - 1, int(u * counts[kind])), fault, arg])
        else:
            out.append(list(f))
    return out


def run_csv(plan):
    """C08."""
    stats = core.Stats()
    root = scratch()
    try:
        a, b = os.path.join(root, 'a'), os.path.join(root, 'b')
        for d in (a, b):
            os.mkdir(d)
            folder = prepare(d, plan['target'])
            if plan['old'] and os.path.isdir(folder):
                core.ask(_plain_csv, plan['old'], os.path.join(folder, 'r.csv'))
        # undisturbed execution: must succeed and be complete
        fa = os.path.join(a, plan['target']['dir'])
        res0 = once(write_csv, (plan['module'], plan['rows'], fa, 'r.csv'), a, count=lined(plan['faults']))
        raw0 = read_bytes(os.path.join(fa, 'r.csv'))
        v = None
        if plan.get('ragged') and (res0['outcome'] == 'raised' or b'12.5' in (raw0 or b'') and any(
                'fading_margin_dB' in r for r in plan['rows'])):
            pass                    # a table cannot hold it, or does
        elif res0['outcome'] != 'returned':
            v = {'kind': 'fails without a fault', 'what': 'writing a table fails without any storage fault: %s'
                 % res0['error']}
        else:
            bad = csv_complete(raw0, plan['rows'])
            if not bad and any('fading_margin_dB' in r for r in plan['rows']):
                bad = 'a value for which the table has no column is left out'
            if bad:
                v = {'kind': 'incomplete', 'what': 'without any fault: ' + bad}
        res = None
        if v is None and not plan.get('ragged'):
            faults = place(plan['faults'], res0['counts'])
            fb = os.path.join(b, plan['target']['dir'])
            res = once(write_csv, (plan['module'], plan['rows'], fb, 'r.csv'), b, faults)
            tally(stats, faults, res)
            raw = read_bytes(os.path.join(fb, 'r.csv'))
            v = judge_c08(plan, faults, res, raw, bool(res0['counts'][shim.MKDIR] > 0))
        info = {'digest': core.digest([res and res['outcome'], raw0 and core.digest(repr(raw0))]),
                'path': core.digest([plan['module'], res and res['outcome'], res and res['fired'],
                                     [f[:4] for f in plan['faults']]]),
                'states': [core.digest([plan['module'], f[1], f[3], f[4] if f[3] != shim.SHORT else 0,
                                        int(f[2] * 8)]) for f in plan['faults'] if f[0] == 'rel']}
        stats.hit('operations', n=sum(res0.get('counts', [0])))
        return v, stats, info
    finally:
        shutil.rmtree(root, ignore_errors=True)


def judge_c08(plan, faults, res, raw, made_dir):
    hard = [shim.name(f) for f, hit in zip(faults, res['fired'])
            if hit and f[2] in (shim.ERR, shim.STICKY) and f[3] != E.EINTR
            and f[0] in (shim.OPEN, shim.WRITE, shim.CLOSE)]
    soft_only = not [f for f, hit in zip(faults, res['fired'])
                     if hit and not (f[2] == shim.SHORT or f[3] == E.EINTR)]
    if res['outcome'] == 'returned':
        bad = csv_complete(raw, plan['rows'])
        if bad:
            return {'kind': 'incomplete', 'what': 'reported success, but: ' + bad, 'faults': [shim.name(f) for f in faults]}
        if hard:
            return {'kind': 'swallowed', 'what': 'a hard storage error was taken for success: ' + ', '.join(hard)}
    elif soft_only:
        return {'kind': 'not absorbed', 'what': 'short or interrupted operations made the call fail: %s' % res['error'],
                'faults': [shim.name(f) for f in faults]}
    return None


def _plain_csv(rows, path):
    with open(path, 'w') as f:
        w = csv.DictWriter(f, list(rows[0]), lineterminator='\n')
        w.writeheader()
        w.writerows(rows)


# --------------------------------------------------------------------- C09
def crash_fault(rng):
    k = rng.random()
    if k < 0.45:
        return ['rel', shim.WRITE, rng.random(), rng.choice([shim.TORN, shim.TORN, shim.CRASH, shim.AFTER]),
                rng.randrange(1, 1 << 20)]
    kind = rng.choice([shim.OPEN, shim.OPEN, shim.CLOSE, shim.MKDIR, shim.RENAME, shim.UNLINK, shim.TRUNC, shim.STAT])
    return ['rel', kind, rng.random(), rng.choice([shim.CRASH, shim.AFTER]), 0]


def gen_c09(rng):
    runs = []
    n = rng.choice([1, 1, 2, 3])
    base = rng.randrange(1, 1500)
    for _ in range(n):
        runs.append({'rows': table(rng, rng.choice([None, base, max(1, base // 7)])), 'faults': [crash_fault(rng)]})
        if rng.random() < 0.15:
            runs[-1]['faults'] = [line_fault(rng)]
        if rng.random() < 0.2:
            runs[-1]['faults'].append(['rel', shim.WRITE, rng.random(), shim.SHORT, rng.randrange(1, 1 << 20)])
    same_rows = rng.random() < 0.5
    last = runs[-1]['rows'] if same_rows else table(rng)
    return {'world': 'csvkill', 'prop': 'C09', 'module': rng.choice(CSV_MODULES), 'target': target(rng),
            'old': table(rng, rng.choice([None, base, base * 2, 1])) if rng.random() < 0.6 else None,
            'runs': runs, 'final': last}


def run_csvkill(plan):
    stats = core.Stats()
    root = scratch()
    trail = []
    try:
        w = os.path.join(root, 'w')
        os.mkdir(w)
        folder = prepare(w, plan['target'])
        path = os.path.join(folder, 'r.csv')
        if plan['old']:
            os.makedirs(folder, exist_ok=True)
            core.ask(write_csv, plan['module'], plan['old'], folder, 'r.csv')
        v = None
        for i, run in enumerate(plan['runs']):
            ref = os.path.join(root, 'ref%d' % i)
            # the same run in a copy of the folder, undisturbed: its bytes, and where it can be killed
            shutil.copytree(w, ref)
            r0 = once(write_csv, (plan['module'], run['rows'], os.path.join(ref, plan['target']['dir']), 'r.csv'), ref,
                      count=lined(run['faults']))
            if r0['outcome'] != 'returned':
                v = {'kind': 'rerun fails', 'what': 'run %d, started after %s, fails without any fault: %s'
                     % (i, trail or 'nothing', r0['error'])}
                break
            new = read_bytes(os.path.join(ref, plan['target']['dir'], 'r.csv'))
            shutil.rmtree(ref)
            bad = csv_complete(new, run['rows'])
            if bad:
                v = {'kind': 'rerun wrong', 'what': 'run %d, started after %s, leaves a wrong table: %s' % (i, trail, bad)}
                break
            before = read_bytes(path)
            faults = place(run['faults'], r0['counts'])
            r = once(write_csv, (plan['module'], run['rows'], folder, 'r.csv'), w, faults)
            tally(stats, faults, r)
            after = read_bytes(path)
            trail.append('%s (%s)' % (r['outcome'], ', '.join(shim.name(f) for f, h in zip(faults, r['fired']) if h)))
            stats.hit('states_after_kill', 'absent' if after is None else 'complete new' if after == new else
                      'unchanged' if after == before else 'empty' if after == b'' else 'leading part')
            stats.hit('operations', n=sum(r0['counts']))
            if r['outcome'] == 'returned':
                if after != new:
                    v = {'kind': 'incomplete', 'what': 'run %d reported success but the table differs' % i}
                    break
            elif not (after is None or after == before or new.startswith(after)):
                v = {'kind': 'misleading', 'what': 'run %d was %s and left a table which is neither the old one nor a '
                     'leading part of the new one' % (i, trail[-1]),
                     'got': clip(after[-300:]), 'sizes': {'before': before and len(before), 'after': len(after),
                                                          'new': len(new)}}
                break
        if v is None:
            r = once(write_csv, (plan['module'], plan['final'], folder, 'r.csv'), w)
            raw = read_bytes(path)
            if r['outcome'] != 'returned':
                v = {'kind': 'rerun fails', 'what': 'running again after %s fails: %s' % (trail, r['error'])}
            else:
                bad = csv_complete(raw, plan['final'])
                if bad:
                    v = {'kind': 'rerun wrong', 'what': 'running again after %s leaves a wrong table: %s' % (trail, bad)}
        info = {'digest': core.digest([trail]), 'path': core.digest([plan['module'], trail, bool(plan['old'])]),
                'states': [core.digest(t) for t in trail]}
        return v, stats, info
    finally:
        shutil.rmtree(root, ignore_errors=True)


# --------------------------------------------------------------------- C11
def features(rng, n=None):
    n = n or (rng.choice([1, 1, 2, 5, 20, 60, 200]) if rng.random() < 0.7 else batchy(rng, 2100))
    twins = rng.random() < 0.3
    digits = rng.choice([3, 3, 12])
    kind = rng.choice(['elevation', 'elevation', 'id', 'line', 'several'])
    text = rng.choice(['site %d', 'site %d', 'Z\u00fcrich \u00b1%d', 'a rather long name, as sites of a campaign have them, and its number: %d'])
    out = []
    for i in range(n):
        x, y = round(rng.uniform(-10, 10), 6), round(rng.uniform(40, 55), 6)
        g = {'type': 'Point', 'coordinates': [x, y]}
        if kind == 'line':
            g = {'type': 'LineString', 'coordinates': [[x, y]] + [[x + 0.25 * k, y + 0.125 * k * k] for k in range(1, rng.choice([2, 2, 6]))]}
            pr = {'id': 'terrain path'}
        elif kind == 'several':
            pr = {'id': text % i, 'elevation': round(rng.choice([1, 1, 1e-6, 1e6]) * rng.uniform(-5, 900), digits), 'n': rng.choice([0, i, -7, 2 ** 31 - 1])}
        else:
            pr = {'elevation': round(rng.uniform(-5, 900), digits)} if kind == 'elevation' else {'id': text % i}
        out.append({'type': 'Feature', 'geometry': g, 'properties': pr})
        if twins and len(out) > 1 and rng.random() < 0.4:      # like another one, in part or altogether
            t = copy.deepcopy(out[-2] if rng.random() < 0.6 else rng.choice(out))
            k = rng.choice(['all', 'geometry', 'properties'])
            for part in ('geometry', 'properties'):
                if k in ('all', part):
                    out[-1][part] = t[part]
    return out


def tup(feats):
    out = []
    for f in feats:
        c = f['geometry']['coordinates']
        c = tuple(c) if f['geometry']['type'] == 'Point' else [tuple(p) for p in c]
        out.append({'type': 'Feature', 'geometry': {'type': f['geometry']['type'], 'coordinates': c},
                    'properties': dict(f['properties'])})
    return out


def write_shp(module, feats, directory, filename):
    jobs.scripts()[module].write_shapefile(tup(feats), directory, filename, 'EPSG:4326')


def read_shp(path):
    import fiona
    with fiona.open(path) as src:
        return [[f['geometry']['type'], core.plain(f['geometry']['coordinates']), dict(f['properties'])] for f in src]


def shp_wrong(path, feats):
    kind, got = core.in_child(read_shp, path)
    if kind != 'ok':
        return 'it cannot be read: %s' % clip(got, 300)
    want = [[f['geometry']['type'], core.plain(f['geometry']['coordinates']), dict(f['properties'])] for f in feats]
    if len(got) != len(want):
        return '%d features instead of %d' % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if not same(g, w):
            return 'feature %d reads back as %r instead of %r' % (i, g, w)
    return None


def gen_c11(rng):
    runs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        if k < 0.45:
            fs = [crash_fault(rng)]
        elif k < 0.58:
            fs = [line_fault(rng)]
        elif k < 0.88:
            fs = [['rel', rng.choice([shim.WRITE, shim.WRITE, shim.WRITE, shim.OPEN]), rng.random(), shim.STICKY,
                   rng.choice([E.ENOSPC, E.EIO, E.EDQUOT, E.EROFS])]]
        elif k < 0.93:
            fs = [['rel', rng.choice([shim.MKDIR, shim.UNLINK]), rng.random(), rng.choice([shim.STICKY, shim.STICKY, shim.ERR]),
                   rng.choice([E.EACCES, E.ENOSPC])]]
        elif k < 0.97:                  # once only, or while reading back what was written
            fs = [['rel', rng.choice([shim.WRITE, shim.WRITE, shim.READ]), rng.random(), rng.choice([shim.ERR, shim.STICKY]),
                   rng.choice([E.EIO, E.ENOSPC])]]
        else:
            fs = []
        runs.append({'features': features(rng), 'faults': fs})
    return {'world': 'shp', 'prop': 'C11', 'module': rng.choice(SHP_MODULES), 'target': target(rng), 'runs': runs,
            'old': features(rng) if rng.random() < 0.4 else None, 'final': features(rng),
            'name': rng.choice(['points.shp', 'transmitter.shp', 'a.b.shp'])}


def gen_known11(rng):
    """The history of finding K2."""
    feats = [{'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': [1.5, 45.25 + i]}, 'properties': {'id': 'site %d' % i}}
             for i in range(5)]
    return {'world': 'shp', 'prop': 'C11', 'module': 'p2p', 'target': {'dir': 'out', 'exists': 1}, 'old': None,
            'runs': [{'features': feats, 'faults': [['rel', shim.READ, 0.0, shim.STICKY, E.EIO]]}], 'final': feats, 'name': 'points.shp'}


def fiona_shp(feats, path):
    """The same shapefile without any code of the repository."""
    import fiona
    fs = tup(feats)
    kinds = {k: {str: 'str', float: 'float', int: 'int'}[type(v)] for k, v in fs[0]['properties'].items()}
    with fiona.open(path, 'w', driver='ESRI Shapefile', crs={'init': 'EPSG:4326'},
                    schema={'geometry': fs[0]['geometry']['type'], 'properties': kinds}) as sink:
        for f in fs:
            sink.write(f)


def gdal_too(root, feats, faults, fired, bad):
    """Finding K2: does fiona by itself take this failing read, or this write failing once, for success and
    lose the same?"""
    hits = [f for f, h in zip(faults, fired) if h]
    if not core.known('C11', 'K2') or not hits or any(
            f[0] != shim.READ and (f[0] != shim.WRITE or f[2] != shim.ERR) for f in hits):
        return False
    k, n, fault, arg = hits[0]
    for m in [n] + [x for x in range(n - 6, n + 7) if x >= 0 and x != n]:
        ctl = os.path.join(root, 'control')
        os.mkdir(ctl)
        try:
            r = once(fiona_shp, (feats, os.path.join(ctl, 'c.shp')), ctl, [[k, m, fault, arg]])
            if r['outcome'] == 'returned' and shp_wrong(os.path.join(ctl, 'c.shp'), feats) == bad:
                return True
        finally:
            shutil.rmtree(ctl)
    return False


def run_shp(plan):
    stats = core.Stats()
    root = scratch()
    trail = []
    try:
        w = os.path.join(root, 'w')
        os.mkdir(w)
        folder = prepare(w, plan['target'])
        path = os.path.join(folder, plan['name'])
        v = None
        seq = list(plan['runs'])
        if plan['old']:
            seq.insert(0, {'features': plan['old'], 'faults': []})
        seq.append({'features': plan['final'], 'faults': []})
        for i, run in enumerate(seq):
            counts = None
            if run['faults']:
                ref = os.path.join(root, 'ref%d' % i)
                shutil.copytree(w, ref)
                r0 = once(write_shp, (plan['module'], run['features'], os.path.join(ref, plan['target']['dir']),
                                      plan['name']), ref, count=lined(run['faults']))
                if r0['outcome'] == 'returned':
                    bad = shp_wrong(os.path.join(ref, plan['target']['dir'], plan['name']), run['features'])
                else:
                    bad = 'it ended as ' + r0['outcome'] + ': ' + str(r0['error'])
                shutil.rmtree(ref)
                if bad:
                    v = {'kind': 'cannot be repeated', 'what': 'writing the shapefile, after %s: %s'
                         % (trail or 'nothing', bad)}
                    break
                counts = r0['counts']
            faults = place(run['faults'], counts) if run['faults'] else []
            r = once(write_shp, (plan['module'], run['features'], folder, plan['name']), w, faults)
            tally(stats, faults, r)
            trail.append('%s (%s)' % (r['outcome'], ', '.join(shim.name(f) for f, h in zip(faults, r['fired']) if h)))
            if r['outcome'] == 'returned':
                bad = shp_wrong(path, run['features'])
                if bad and gdal_too(root, run['features'], faults, r['fired'], bad):
                    stats.hit('known', 'K2')
                elif bad:
                    v = {'kind': 'incomplete', 'what': 'run %d of %s reported success, but: %s' % (i, trail, bad)}
                    break
            elif not any(r['fired']):
                v = {'kind': 'cannot be repeated', 'what': 'writing the shapefile again after %s ends as %s: %s'
                     % (trail[:-1], r['outcome'], r['error'])}
                break
            stats.hit('operations', n=sum(r.get('counts') or [1]))
        info = {'digest': core.digest([trail]), 'path': core.digest([plan['module'], trail]),
                'states': [core.digest(t) for t in trail]}
        return v, stats, info
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink_runs(plan, fails, budget):
    plan = copy.deepcopy(plan)
    key = 'features' if plan['world'] == 'shp' else 'rows'
    if plan.get('old') is not None:
        q = dict(plan, old=None)
        budget[0] -= 1
        if fails(q):
            plan = q
    plan['runs'] = core.ddmin_list(plan['runs'], lambda r: fails(dict(plan, runs=r)), budget)
    for i in range(len(plan['runs'])):
        def wf(fs):
            q = copy.deepcopy(plan)
            q['runs'][i]['faults'] = fs
            return q
        plan['runs'][i]['faults'] = core.ddmin_list(plan['runs'][i]['faults'], lambda fs: fails(wf(fs)), budget)
        while len(plan['runs'][i][key]) > 1 and budget[0] > 0:
            q = copy.deepcopy(plan)
            q['runs'][i][key] = q['runs'][i][key][:max(1, len(q['runs'][i][key]) // 2)]
            budget[0] -= 1
            if not fails(q):
                break
            plan = q
    while len(plan['final']) > 1 and budget[0] > 0:
        q = dict(plan, final=plan['final'][:len(plan['final']) // 2])
        budget[0] -= 1
        if not fails(q):
            break
        plan = q
    return plan


def shrink_csv(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['faults'] = core.ddmin_list(plan['faults'], lambda f: fails(dict(plan, faults=f)), budget)
    if plan['old'] and fails(dict(plan, old=None)):
        plan['old'] = None
    while len(plan['rows']) > 1 and budget[0] > 0:
        q = dict(plan, rows=plan['rows'][:len(plan['rows']) // 2])
        budget[0] -= 1
        if not fails(q):
            break
        plan = q
    return plan


# --------------------------------------------------------------------- C10
def gen_c10(rng):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    tgt = target(rng)
    if rng.random() < 0.6:
        tgt['exists'] = rng.choice([0, 0, max(0, len(tgt['dir'].split('/')) - 1)])
    procs = []
    alike = rng.random() < 0.3          # names of which one begins like another
    one = rng.choice(CSV_MODULES) if rng.random() < 0.35 else None      # all runs of one kind, in one place
    for i in range(n):
        jobs_ = []
        for k in range(rng.choice([1, 1, 2])):
            sub = rng.choice(['', '', '', 's', 't/u'])
            if rng.random() < 0.72:
                jobs_.append({'kind': 'csv', 'module': rng.choice(CSV_MODULES), 'sub': sub, 'name': 'f%d_%d.csv' % (i, k),
                              'data': table(rng, rng.choice([1, 5, 60, 400]))})
            else:
                jobs_.append({'kind': 'shp', 'module': rng.choice(SHP_MODULES), 'sub': sub,
                              'name': rng.choice(['f%d_%d.shp', 'f%d.%d.shp']) % (i, k),
                              'data': features(rng, rng.choice([1, 3, 20]))})
            if one:
                jobs_[-1] = {'kind': 'csv', 'module': one, 'sub': '', 'name': 'f%d_%d.csv' % (i, k),
                             'data': table(rng, rng.choice([1, 5, 60, 400]))}
            if alike:
                stem = 'points' + ['', '2', '_b', '.a', '-1', '2.shp', '.csv', 'x'][2 * i + k]
                jobs_[-1]['name'] = stem + '.' + jobs_[-1]['kind']
        procs.append(jobs_)
    plan = {'world': 'procs', 'prop': 'C10', 'procs': procs, 'target': tgt, 'sched': rng.randrange(1 << 40),
            'stay': rng.choice([0.0, 0.5, 0.8, 0.95]), 'clock': rng.choice([None, 1583020800])}
    if rng.random() < 0.4:              # one of them does not make it
        plan['doom'] = doom(rng, n)
    return plan


def doom(rng, n):
    d = {'proc': rng.randrange(n), 'at': int(2 ** rng.uniform(0, 7))}
    if rng.random() < 0.4:
        d['fault'] = [rng.choice([shim.WRITE, shim.WRITE, shim.OPEN, shim.CLOSE, shim.MKDIR, shim.RENAME]),
                      rng.randrange(4), shim.STICKY, rng.choice(HARD)]
    return d


def gen_c10_scripts(rng):
    """The runner scripts themselves, at the same time in one working folder."""
    from . import runners
    names = rng.sample(runners.SCRIPTS[:4], rng.choice([2, 2, 3]))
    if rng.random() < 0.1:
        names[0] = 'pimter'
    return {'world': 'procs', 'prop': 'C10', 'procs': [[{'kind': 'script', 'script': s}] for s in names],
            'target': {'dir': 'results', 'exists': rng.choice([0, 0, 0, 1])}, 'data': rng.randrange(2),
            'sched': rng.randrange(1 << 40), 'stay': rng.choice([0.0, 0.3, 0.6]), 'clock': None, 'dull': 0.98,
            **({'doom': {'proc': rng.randrange(len(names)), 'at': int(2 ** rng.uniform(0, 14))}} if rng.random() < 0.3 else {})}


def gen_twins(rng):
    """The same run, started several times at once."""
    plan = gen_c10(rng)
    j = {'kind': 'csv', 'module': rng.choice(CSV_MODULES), 'sub': '', 'name': 'r.csv',
         'data': table(rng, rng.choice([1, 5, 60, 400, 1200]))}
    plan['procs'] = [[dict(j, module=j['module'])] for _ in range(rng.choice([2, 2, 3, 4]))]
    plan['prop'] = 'C18'
    plan.pop('doom', None)
    if rng.random() < 0.5:
        plan['old'] = table(rng, rng.choice([1, 30, 500, 2000]))
        plan['target']['exists'] = len(plan['target']['dir'].split('/'))
    return plan


def gen_twin_threads(rng):
    plan = gen_twins(rng)
    plan.update(world='wthreads', quantum=rng.choice([1, 2, 4, 8, 20, 60]), heat=rng.choice([0, 0.2]))
    return plan


def gen_twin_scripts(rng):
    plan = gen_c10_scripts(rng)
    plan['procs'] = [[{'kind': 'script', 'script': s}] for s in [rng.choice(['area', 'area_2tiles'])] * rng.choice([2, 2, 3])]
    plan['prop'] = 'C18'
    plan.pop('doom', None)
    return plan


def gen_c10_threads(rng):
    """The same, as threads of one process."""
    plan = gen_c10(rng)
    plan.update(world='wthreads', quantum=rng.choice([1, 2, 4, 8, 20, 60]), heat=rng.choice([0, 0.2]))
    plan.pop('doom', None)
    if rng.random() < 0.4:
        plan['doom'] = {'proc': rng.randrange(len(plan['procs'])), 'at': rng.randrange(1, 120)}
    for js in plan['procs']:
        for j in js:
            j['data'] = j['data'][:60]
    return plan


def exec_wthreads(plan, folder, root):
    stay_inside(root)

    bad = plan.get('doom', {})

    def body(js):
        def go():
            if bad and js is plan['procs'][bad['proc']]:
                t.cut_after(bad['at'], KeyboardInterrupt if bad['at'] % 2 else MemoryError)
            try:
                proc_body(js, folder)
                return ['returned', None]
            except (Exception, KeyboardInterrupt) as error:
                return ['raised', '%s: %s' % (type(error).__name__, str(error)[:200])]
        return go
    t = sched.Threads([body(js) for js in plan['procs']], False, plan['quantum'], plan['sched'], plan.get('switches'),
                      heat=0 if 'switches' in plan else plan['heat'])
    return {'results': t.run(), 'made': t.made, 'trail': t.trail[:400], 'failure': repr(t.failure) if t.failure else None,
            'cuts': t.cuts}


def run_wthreads(plan):
    stats = core.Stats()
    root = scratch()
    try:
        w = os.path.join(root, 'w')
        os.mkdir(w)
        folder = prepare(w, plan['target'])
        if 'old' in plan:
            _plain_csv(plan['old'], os.path.join(folder, 'r.csv'))
        got = core.ask(exec_wthreads, plan, folder, w)
        stats.hit('faults', 'thread switch', n=len(got['made']))
        stats.hit('operations', n=sum(len(js) for js in plan['procs']))
        v = None
        if got['failure']:
            v = {'kind': 'no progress', 'what': 'the threads stopped: ' + got['failure']}
        doomed = plan.get('doom', {}).get('proc', -1)
        for _, place in got['cuts']:
            stats.hit('faults', 'thread cut short')
            stats.hit('places', place)
        for i, r in enumerate(got['results']):
            if v is None and i != doomed and (not isinstance(r, list) or r[0] != 'returned'):
                v = {'kind': 'run failed', 'what': 'thread %d, which fails in no way by itself: %s' % (i, r)}
        if v is None:
            want = {}
            for i, js in enumerate(plan['procs']):
                if i == doomed:
                    continue
                alone = os.path.join(root, 'alone%d' % i)
                os.mkdir(alone)
                prepare(alone, plan['target'])
                once(proc_body, (js, os.path.join(alone, plan['target']['dir'])), alone)
                want.update(tree(os.path.join(alone, plan['target']['dir'])))
            left = tree(folder)
            if doomed >= 0:
                left = {k: x for k, x in left.items() if k in want}
            bad = [k for k in sorted(set(want) | set(left)) if left.get(k) != want.get(k)]
            if bad:
                v = {'kind': 'files left', 'what': 'the files left by threads differ from those of the runs alone: %s' % [
                    [k, 'missing' if k not in left else 'not expected' if k not in want else 'different'] for k in bad[:5]]}
        if v is None:
            for i, js in enumerate(plan['procs']):
                for j in js if i != doomed else ():
                    path = os.path.join(folder, j['sub'], j['name'])
                    bad = csv_complete(read_bytes(path), j['data']) if j['kind'] == 'csv' else shp_wrong(path, j['data'])
                    if bad and v is None:
                        v = {'kind': 'wrong file', 'what': 'thread %d succeeded, but of %s: %s' % (i, j['name'], bad)}
        info = {'digest': core.digest([got['results'], got['made']]), 'path': core.digest(got['trail']), 'made': got['made'],
                'fired': got['made'][:200], 'states': sorted({core.digest(x) for x in got['trail']})}
        return v, stats, info
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink_wthreads(plan, fails, budget):
    plan = copy.deepcopy(plan)
    _, _, info = run_wthreads(plan)
    q = dict(plan, switches=info['made'])
    if fails(q):
        plan = q
        plan['switches'] = core.ddmin_list(plan['switches'], lambda s: fails(dict(plan, switches=s)), budget)
    return plan


def proc_body(js, folder):
    for j in js:
        if j['kind'] == 'script':
            from . import runners
            runners.start(j['script'], os.path.dirname(folder))
            continue
        d = os.path.join(folder, j['sub']) if j['sub'] else folder
        if j['kind'] == 'csv':
            write_csv(j['module'], j['data'], d, j['name'])
        else:
            write_shp(j['module'], j['data'], d, j['name'])


DULL = ('read', 'write', 'close', 'open')


def tree(folder):
    """Files below a folder; the contents of those without a date in them."""
    out = {}
    for dp, _, fn in os.walk(folder):
        for f in fn:
            path = os.path.join(dp, f)
            out[os.path.relpath(path, folder)] = '' if f.endswith('.dbf') else core.digest(repr(read_bytes(path)))
    return out


def _proc(js, folder, root, rfd, wfd, clock, faults):
    shim.lib().vs_baton(rfd, wfd)
    if clock is not None:
        shim.lib().vs_clock(clock * 10 ** 9, 1000)
    return under_faults(proc_body, (js, folder), root, faults)


def run_procs(plan):
    """Several real processes in one directory; the parent decides, file
    operation by file operation, which of them runs."""
    import random
    stats = core.Stats()
    root = scratch()
    try:
        w = os.path.join(root, 'w')
        os.mkdir(w)
        folder = prepare(w, plan['target'])
        if 'old' in plan:
            _plain_csv(plan['old'], os.path.join(folder, 'r.csv'))
        scripted = 'data' in plan
        if scripted:
            from . import runners
            ref = runners.reference(plan['data'])
            core.ask(runners.dataset, w, plan['data'])
        n = len(plan['procs'])
        pids, to, frm, data = [], [], [], []
        for i, js in enumerate(plan['procs']):
            cr, cw = os.pipe()          # parent -> child: go
            sr, sw = os.pipe()          # child -> parent: at an operation
            rr, rw = os.pipe()          # child -> parent: result
            pid = os.fork()
            if pid == 0:
                code = 98
                try:
                    for fd in to + frm + data + [cw, sr, rr]:
                        os.close(fd)
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                    os.read(cr, 1)
                    bad = plan.get('doom', {})
                    res = _proc(js, folder, w, cr, sw, plan['clock'],
                                [bad['fault']] if 'fault' in bad and bad['proc'] == i else [])
                    shim.lib().vs_baton(-1, -1)
                    os.write(rw, json.dumps(res).encode())
                    code = 0
                finally:
                    os._exit(code)
            for fd in (cr, sw, rw):
                os.close(fd)
            pids.append(pid)
            to.append(cw)
            frm.append(sr)
            data.append(rr)
        rng = random.Random(plan['sched'])
        explicit = plan.get('order')
        alive = set(range(n))
        cur = 0
        order = []                      # run-length: [proc, ops]
        opname = {}
        trail = []
        pos = 0
        doomed = plan.get('doom', {}).get('proc', -1)
        last = plan['doom']['at'] if doomed >= 0 and 'fault' not in plan['doom'] else 0
        asked = 0
        while alive:
            if explicit is not None:
                while pos < len(explicit) and explicit[pos][0] not in alive:
                    pos += 1
                if pos < len(explicit):
                    nxt, left = explicit[pos]
                else:
                    nxt, left = min(alive), 1 << 30
            else:
                nxt = cur if cur in alive and rng.random() < plan['stay'] else rng.choice(sorted(alive))
                left = 1
            while left > 0 and nxt in alive:
                if nxt == doomed:
                    asked += 1
                    if asked == last:
                        os.kill(pids[nxt], signal.SIGKILL)
                        alive.discard(nxt)
                        stats.hit('faults', 'process killed')
                        trail.append((nxt, 'killed'))
                        break
                os.write(to[nxt], b'g')
                if not select.select([frm[nxt]], [], [], 60)[0]:
                    for p in pids:
                        os.kill(p, signal.SIGKILL)
                    raise core.Stuck('process %d does not come back' % nxt)
                c = os.read(frm[nxt], 1)
                if not c:
                    alive.discard(nxt)
                else:
                    opname[nxt] = shim.KINDS[c[0] - ord('a')]
                    if plan.get('dull') and explicit is None and opname[nxt] in DULL and rng.random() < plan['dull']:
                        left += 1
                trail.append((nxt, opname.get(nxt, '') if c else 'end'))
                if order and order[-1][0] == nxt:
                    order[-1][1] += 1
                else:
                    order.append([nxt, 1])
                left -= 1
                if len(trail) > (400000 if scripted else 40000):
                    for p in pids:
                        os.kill(p, signal.SIGKILL)
                    raise core.Stuck('too many operations')
            pos += 1
            cur = nxt
        v = None
        results = []
        for i in range(n):
            raw = b''
            while True:
                part = os.read(data[i], 65536)
                if not part:
                    break
                raw += part
            st = os.waitstatus_to_exitcode(os.waitpid(pids[i], 0)[1])
            for fd in (to[i], frm[i], data[i]):
                os.close(fd)
            results.append(json.loads(raw) if raw else ['died', 'status %s' % st])
        stats.hit('operations', n=len(trail))
        stats.hit('switches', n=len(order) - 1)
        stats.hit('faults', 'process switch', n=len(order) - 1)
        for i, r in enumerate(results):
            stats.hit('outcomes', r[0])
            if i == doomed:
                if 'fault' in plan['doom'] and r[0] == 'raised':
                    stats.hit('faults', shim.name(plan['doom']['fault']))
                continue
            if v is None and r[0] != 'returned':
                v = {'kind': 'run failed', 'what': 'process %d, which fails in no way by itself, %s: %s' % (i, r[0], r[1]),
                     'order': order[-40:]}
        if scripted and v is None:
            got = runners.outputs(w)
            for i, js in enumerate(plan['procs']):
                r, want = ref[js[0]['script']]
                if r['outcome'] != 'returned' or i == doomed:
                    continue
                for k, x in want.items():
                    if v is None and not same(got.get(k), x):
                        v = {'kind': 'wrong file', 'what': 'process %d (%s) succeeded, but %s differs from what it leaves '
                             'when it runs alone' % (i, js[0]['script'], k), 'got': clip(got.get(k), 300),
                             'expected': clip(x, 300), 'order': order[-40:]}
            known = set().union(*[ref[js[0]['script']][1] or () for js in plan['procs']])
            extra = sorted(set(got) - known)
            if v is None and extra and doomed < 0:
                v = {'kind': 'files left', 'what': 'files which no run leaves when it runs alone: %s' % extra[:5],
                     'order': order[-40:]}
        for i, js in enumerate(plan['procs']):
            for j in js:
                if v or scripted or i == doomed:
                    break
                path = os.path.join(folder, j['sub'], j['name'])
                bad = csv_complete(read_bytes(path), j['data']) if j['kind'] == 'csv' else shp_wrong(path, j['data'])
                if bad:
                    v = {'kind': 'wrong file', 'what': 'process %d succeeded, but of %s: %s' % (i, j['name'], bad),
                         'order': order[-40:]}
        if scripted and v and v['kind'] == 'run failed':
            for i, js in enumerate(plan['procs']):
                if ref[js[0]['script']][0]['outcome'] != 'returned':
                    v = None            # it does not run alone either: C13's business
        if not scripted:            # what each run leaves when it runs alone
            want = {}
            for i, js in enumerate(plan['procs']):
                if i == doomed:
                    continue
                alone = os.path.join(root, 'alone%d' % i)
                os.mkdir(alone)
                prepare(alone, plan['target'])
                r = once(proc_body, (js, os.path.join(alone, plan['target']['dir'])), alone)
                if r['outcome'] != 'returned' and v:
                    v['note'] = 'process %d also fails alone: %s' % (i, r['error'])
                want.update(tree(os.path.join(alone, plan['target']['dir'])))
            got = tree(folder)
            if doomed >= 0:             # what it left is its own business
                got = {k: x for k, x in got.items() if k in want}
            if v is None and got != want:
                bad = [k for k in sorted(set(want) | set(got)) if got.get(k) != want.get(k)]
                v = {'kind': 'files left', 'what': 'the files left differ from those of the runs alone: %s' % [
                    [k, 'missing' if k not in got else 'not expected' if k not in want else 'different'] for k in bad[:5]],
                    'order': order[-40:]}
        info = {'digest': core.digest([results, order]), 'path': core.digest(trail), 'order': order,
                'fired': order[:200],
                'states': sorted({core.digest([a, b]) for a, b in zip(trail, trail[1:])})}
        return v, stats, info
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink_procs(plan, fails, budget):
    plan = copy.deepcopy(plan)
    for i in range(len(plan['procs'])):
        if len(plan['procs'][i]) > 1:
            def wj(js):
                q = copy.deepcopy(plan)
                q['procs'][i] = js
                return q
            plan['procs'][i] = core.ddmin_list(plan['procs'][i], lambda js: bool(js) and fails(wj(js)), budget)
    if 'doom' in plan:
        q = copy.deepcopy(plan)
        del q['doom']
        budget[0] -= 1
        if fails(q):
            plan = q
    i = len(plan['procs']) - 1
    while len(plan['procs']) > 2 and i >= 0 and budget[0] > 0:
        q = copy.deepcopy(plan)
        del q['procs'][i]
        if 'doom' in q:
            if q['doom']['proc'] == i:
                i -= 1
                continue
            q['doom']['proc'] -= q['doom']['proc'] > i
        budget[0] -= 1
        if fails(q):
            plan = q
        i -= 1
    _, _, info = run_procs(plan)
    q = dict(plan, order=info['order'])
    if fails(q):
        plan = q
        plan['order'] = core.ddmin_list(plan['order'], lambda o: fails(dict(plan, order=o)), budget)
    return plan
