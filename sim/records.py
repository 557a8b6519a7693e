"""Runner functions on parameter records (C01, C02, C03).

A runner prepares a session inside the record it is given and asks it for many
distances, heights and levels.  What it asks of the session and what it is told
is watched from outside (profile hook); every answer, every row of the output
and the warning indicator are compared with sessions that are brand-new for each
single question.  Records are used for one run after the other, also of the
other mode."""
import copy
import math
import sys

from . import core, jobs, params, session
from .core import same
from .parallel import clip

DB = 8.685890
STEPS = ('qlra', 'qlrpfl', 'lrprop', 'avar')
# What a runner writes into the record before it prepares it.
GIVEN = ('hg', 'wn', 'gme', 'ens', 'zgnd', 'fmhz', 'ens0', 'eps', 'sgm', 'ipol', 'klimx', 'mdvarx', 'gma', 'd', 'pfl')


def gen(rng, prop):
    area = ['area', 'area', 'area_2tiles']
    fns = {'C01': area, 'C02': area + ['p2p', 'p2p', 'p2p_2tiles', 'p2p_2tiles', 'pimter'],
           'C03': area + ['p2p', 'p2p', 'p2p_2tiles', 'pimter']}[prop]
    seq = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        same_mode = [j for j in seq if j['fn'] in fns]
        if same_mode and rng.random() < 0.6:
            j = copy.deepcopy(rng.choice(same_mode))
            for _ in range(rng.choice([0, 1, 1, 2])):
                j = jobs.vary(rng, j)
            if j['fn'] != 'pimter' and rng.random() < 0.2:
                j['fn'] = {'area': 'area_2tiles', 'area_2tiles': 'area', 'p2p': 'p2p_2tiles', 'p2p_2tiles': 'p2p'}[j['fn']]
        else:
            j = jobs.gen_runner(rng, rng.choice(fns), small=True)
        if j['fn'] != 'pimter':
            if prop == 'C03' and rng.random() < 0.5:
                u = j['args'][0]
                u['hg'] = [min(max(h, 1.5), 900) for h in u['hg']]
                u['fmhz'] = min(max(u['fmhz'], 45), 9000)
            j['record'] = rng.choice([0, 0, 0, 1])
        seq.append(j)
    return {'world': 'records', 'prop': prop, 'jobs': seq}


class Watch:
    """Calls of the steps of a session, seen from outside."""

    def __init__(self):
        self.depth = 0
        self.log = []
        self.root = core.REPO + '/src/itmlogic/'

    def __call__(self, frame, event, arg):
        if event not in ('call', 'return'):
            return
        code = frame.f_code
        if code.co_name not in STEPS or not code.co_filename.startswith(self.root):
            return
        if event == 'return':
            self.depth -= 1
            if self.depth == 0:
                self.log[-1]['kwx'] = None
                rec = arg[-1] if isinstance(arg, tuple) else arg
                if isinstance(rec, dict):
                    ent = self.log[-1]
                    ent['kwx'] = core.plain(rec.get('kwx'))
                    if code.co_name == 'avar' and isinstance(arg, tuple):
                        ent['out'] = core.plain(arg[0])
                    elif code.co_name in ('lrprop', 'qlrpfl'):
                        ent['out'] = core.plain(rec.get('aref'))
            return
        self.depth += 1
        if self.depth > 1:
            return
        names = code.co_varnames[:code.co_argcount]
        args = [frame.f_locals.get(n) for n in names]
        ent = {'step': code.co_name, 'args': [a for a in args if not isinstance(a, dict)]}
        ent['args'] = copy.deepcopy(ent['args'])
        rec = next((a for a in args if isinstance(a, dict)), {})
        ent['kwx_before'] = core.plain(rec.get('kwx'))
        if code.co_name in ('qlra', 'qlrpfl'):
            ent['given'] = copy.deepcopy({k: rec[k] for k in GIVEN if k in rec})
            if code.co_name == 'qlra':
                ent['given']['dh'] = rec.get('dh')
            for k in ('klim', 'mdvar'):
                if k in rec and rec.get(k + 'x', 1) in (0, -1):
                    ent['given'][k] = rec[k]
        self.log.append(ent)


def fresh(ent):
    """A brand-new record with what the runner had written into it."""
    rec = copy.deepcopy(ent['given'])
    rec['lvar'] = 5
    rec['kwx'] = 0
    return rec


def brand_new(prep, d, z):
    """-> (value, warning level) of a session used for this alone."""
    _, qlra, qlrpfl, lrprop, avar = session.lib()
    rec = fresh(prep)
    if prep['step'] == 'qlra':
        rec = qlra(*(list(prep['args']) + [rec]))
        if d is None:
            return None, core.plain(rec['kwx'])
        rec['lvar'] = max(1, rec['lvar'])
        rec = lrprop(d, rec)
    else:
        rec = qlrpfl(rec)
    out = rec.get('aref')
    if z is not None:
        out, rec = avar(z[0], z[1], z[2], rec)
    return core.plain(out), core.plain(rec['kwx'])


def judge(job, log, out, rec, prop):
    """None, or what differs from brand-new sessions."""
    prep, d, rows, level = None, None, [], 0
    cache = {}
    for k, e in enumerate(log):
        step = e['step']
        if step in ('qlra', 'qlrpfl'):
            prep, d = e, None
            level = e['kwx_before'] or 0
            args = (None, None)
        elif prep is None:
            return None
        elif step == 'lrprop':
            if len(e['args']) != 1:
                return None
            d = e['args'][0]
            args = (d, None)
        else:
            if len(e['args']) != 3:
                return None
            args = (d, e['args'])
        key = core.digest([id(prep), core.plain(list(args))])
        if key not in cache:
            cache[key] = brand_new(prep, *args)
        want, lv = cache[key]
        level = max(level, lv)
        if prop != 'C03' and 'out' in e and want is not None and not same(e['out'], want):
            return '%s, step %d (%s%s): the session gives %r, a brand-new one %r' % (
                job['fn'], k, step, ' at %r m' % d if d is not None else '', e['out'], want)
        if prop == 'C03' and e.get('kwx') is not None and e['kwx'] != level:
            return '%s, step %d (%s%s): warning level %s, the worst raised so far is %s' % (
                job['fn'], k, step, ' at %r m' % d if d is not None else '', e['kwx'], level)
        if step == 'avar':
            length = d if prep['step'] == 'qlra' else prep['given']['pfl'][0] * prep['given']['pfl'][1]
            rows.append([length, DB * math.log(2 * prep['given']['wn'] * length) + want])
    if prop != 'C03' and isinstance(out, list) and len(out) == len(rows):
        for i, (row, (length, loss)) in enumerate(zip(out, rows)):
            if isinstance(row, dict) and 'propagation_loss_dB' in row and not same(row['propagation_loss_dB'], loss, 1e-7):
                return '%s, row %d: %r, brand-new sessions give %r' % (job['fn'], i, row, loss)
            if job['fn'].startswith('area') and isinstance(row, dict) and 'distance_km' in row and \
                    not same(row['distance_km'] * 1000.0, length, 1e-7):
                return '%s, row %d: %r is the answer for %r m' % (job['fn'], i, row, length)
    if prop == 'C03' and isinstance(rec, dict) and 'kwx' in rec and prep is not None and rec['kwx'] != level:
        return '%s: the record ends with warning level %s, the worst raised is %s' % (job['fn'], rec['kwx'], level)
    return None


def execute(plan):
    """-> [{r, bad}] for the runs of the plan."""
    records = {}
    out = []
    for j in plan['jobs']:
        args = copy.deepcopy(j['args'])
        rec = None
        if 'record' in j:
            rec = records.setdefault(j['record'], {})
            rec.update(args[0])
            args[0] = rec
        w = Watch()
        sys.setprofile(w)
        try:
            r = jobs.call(j, args)
        except Exception as error:
            r = {'raised': type(error).__name__}
        finally:
            sys.setprofile(None)
        bad = None
        if not (isinstance(r, dict) and 'raised' in r):
            bad = judge(j, w.log, r, rec, plan['prop'])
        kwx = core.plain(rec.get('kwx')) if rec is not None else None
        out.append({'r': r, 'kwx': kwx, 'bad': bad, 'steps': [[e['step'], e.get('kwx')] for e in w.log][:60], 'n': len(w.log)})
    return out


def alone(job):
    rec = job['args'][0]
    return {'r': jobs.perform(job), 'kwx': None} if 'record' not in job else _alone(job, copy.deepcopy(job['args']))


def _alone(job, args):
    try:
        r = jobs.call(job, args)
    except Exception as error:
        r = {'raised': type(error).__name__}
    return {'r': r, 'kwx': core.plain(args[0].get('kwx'))}


def run(plan):
    stats = core.Stats()
    got = core.ask(execute, plan)
    v = None
    for i, (j, g) in enumerate(zip(plan['jobs'], got)):
        stats.hit('jobs', j['fn'])
        stats.hit('operations', n=g['n'])
        stats.hit('probes', 'warning level %s' % g['kwx'])
        if v:
            continue
        if g['bad']:
            v = {'kind': 'differs from brand-new sessions', 'what': 'run %d: %s' % (i, g['bad'])}
            continue
        ref = core.ask(alone, j)
        if plan['prop'] == 'C03':
            if 'record' in j and not (isinstance(ref['r'], dict) and 'raised' in ref['r']) and g['kwx'] != ref['kwx']:
                v = {'kind': 'warning level of the run', 'what': 'run %d (%s) ends with warning level %s, with a new record '
                     'with %s' % (i, j['fn'], g['kwx'], ref['kwx'])}
        elif not jobs.agree(g['r'], ref['r']):
            v = {'kind': 'differs from a new record', 'what': 'run %d (%s) on a used record differs from a new record'
                 % (i, j['fn']), 'got': clip(g['r']), 'expected': clip(ref['r'])}
    info = {'digest': core.digest([[g['r'], g['kwx']] for g in got]),
            'path': core.digest([[j['fn'], j.get('record'), g['steps']] for j, g in zip(plan['jobs'], got)]),
            'states': sorted({core.digest([j['fn'], s]) for j, g in zip(plan['jobs'], got) for s in g['steps']})}
    return v, stats, info


def shrink(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['jobs'] = core.ddmin_list(plan['jobs'], lambda js: bool(js) and fails(dict(plan, jobs=js)), budget)
    return plan
