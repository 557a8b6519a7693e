"""The session world: clients taking turns on prediction sessions (C01 to C04, C07).

A session is the parameter record that the routines of the library work on.
Clients prepare it for area or point-to-point prediction, ask for distances and
for loss quantiles, prepare it again, in any order; calls may be cut short at
any step and are then repeated.
"""
import copy
import math

from . import core, params, sched
from .core import same

EXCS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
CAP = 6_000_000

# What a caller supplies and expects to find again.
INPUTS = ('hg', 'wn', 'gme', 'ens', 'zgnd', 'fmhz', 'ens0', 'eps', 'sgm', 'ipol', 'klimx', 'mdvarx',
          'gma', 'd')


def lib():
    from itmlogic.preparatory_subroutines.qlrps import qlrps
    from itmlogic.preparatory_subroutines.qlra import qlra
    from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
    from itmlogic.lrprop import lrprop
    from itmlogic.statistics.avar import avar
    return qlrps, qlra, qlrpfl, lrprop, avar


def valid_klim(k):
    return 1 <= k <= 7


def valid_mdvar(m):
    return 0 <= m % 10 <= 3 and m < 40


# --------------------------------------------------------------- executing
class Session:
    def __init__(self):
        self.prop = {}
        self.kst = None
        self.mode = None            # 'area', 'p2p' or None
        self.dist_ok = False        # a distance has been asked and answered
        self.klim = None            # what is in force, for "keep"
        self.mdvar = None

    # each step is split into "write the inputs" and "call", so that the
    # call alone can be interrupted and repeated
    def setup(self, op):
        qlrps = lib()[0]
        prop = self.prop
        p = op['p']
        if op.get('fresh'):
            self.prop = prop = {}
        keepk = op.get('keepk') and self.klim is not None and valid_klim(self.klim)
        keepm = op.get('keepm') and self.mdvar is not None and valid_mdvar(self.mdvar)
        wn, gme, ens, zgnd = qlrps(p['fmhz'], p['zsys'], p['ens0'], p['ipol'], p['eps'], p['sgm'])
        for k in ('fmhz', 'ens0', 'eps', 'sgm', 'ipol'):
            prop[k] = p[k]
        prop['gma'] = 157e-9
        prop['wn'], prop['gme'], prop['ens'], prop['zgnd'] = wn, gme, ens, zgnd
        self._list('hg', p['hg'], op)
        if not keepk:
            self.klim = p['klim']
        if not keepm:
            self.mdvar = p['mdvar']
        prop['klimx'] = 0 if keepk else self.klim
        prop['mdvarx'] = -1 if keepm else self.mdvar
        if op.get('direct') and not keepk:          # the way the runners do it
            prop['klimx'] = 0
            prop['klim'] = self.klim
            prop['lvar'] = 5
        elif 'lvar' not in prop or (op.get('lvar') == 0 and not keepk and not keepm):
            prop['lvar'] = 0
        elif op.get('lvar') == 5:
            prop['lvar'] = 5
        if keepk and 'klim' not in prop:
            prop['klim'] = self.klim
            prop['lvar'] = 5
        if keepm and 'mdvar' not in prop:
            prop['mdvar'] = self.mdvar
            prop['lvar'] = 5
        if op.get('clear') or 'kwx' not in prop:
            prop['kwx'] = 0
        if op['op'] == 'area':
            prop['dh'] = p['dh']
            self.kst = list(p['kst'])
        else:
            self._list('pfl', p['pfl'], op)
        self.mode = None
        self.dist_ok = False

    def _list(self, name, values, op):
        if op.get('inplace') and isinstance(self.prop.get(name), list):
            self.prop[name][:] = values
        else:
            self.prop[name] = list(values)

    def call(self, op):
        _, qlra, qlrpfl, lrprop, avar = lib()
        kind = op['op']
        if kind == 'area':
            self.prop = qlra(self.kst, self.prop)
            self.mode = 'area'
            return None
        if kind == 'p2p':
            self.prop = qlrpfl(self.prop)
            self.mode = 'p2p'
            self.dist_ok = True
            return core.plain(self.prop['aref'])
        if kind == 'dist':
            self.dist_ok = False
            self.prop['lvar'] = max(1, self.prop['lvar'])
            self.prop = lrprop(op['d'], self.prop)
            self.dist_ok = True
            return [core.plain(self.prop['aref']), core.plain(self.prop['dist'])]
        a, self.prop = avar(op['z'][0], op['z'][1], op['z'][2], self.prop)
        return core.plain(a)

    def possible(self, op):
        kind = op['op']
        if kind in ('area', 'p2p'):
            return True
        if kind == 'dist':
            return self.mode == 'area'
        return self.mode is not None and self.dist_ok

    def inputs(self):
        keys = list(INPUTS)
        if self.mode == 'p2p' or 'pfl' in self.prop:
            keys.append('pfl')
        if self.mode == 'area':
            keys.append('dh')
        return keys


def snapshot(session, op):
    """Values of everything the caller handed to this call."""
    keys = session.inputs()
    if op['op'] == 'area':
        keys = keys + ['dh']
    if op['op'] == 'p2p':
        keys = [k for k in keys if k != 'dh'] + ['pfl']
    objs = {k: session.prop[k] for k in keys if k in session.prop}
    if op['op'] in ('dist', 'q'):
        for k in ('he', 'dl', 'the'):
            if k in session.prop:
                objs[k] = session.prop[k]
    if session.kst is not None:
        objs['kst'] = session.kst
    return objs, copy.deepcopy(objs)


def changed(session, objs, before):
    for k, v in before.items():
        if not same(core.plain(objs[k]), core.plain(v), rel=0):
            return '%s: object changed from %s to %s' % (k, brief(v), brief(objs[k]))
        if k != 'kst' and (k not in session.prop or
                           not same(core.plain(session.prop[k]), core.plain(v), rel=0)):
            return '%s: value changed from %s to %s' % (k, brief(v), brief(session.prop.get(k)))
    return None


def brief(x):
    s = repr(core.plain(x))
    return s if len(s) < 120 else s[:117] + '...'


def execute(plan, disturb=True, count=False):
    """Run the plan on the real code.  One entry of history per operation."""
    sessions = {}
    history = []
    fine = plan.get('fine', False)
    for op in plan['ops']:
        s = sessions.setdefault(op['s'], Session())
        ent = {'op': op['op'], 's': op['s']}
        history.append(ent)
        if not s.possible(op):
            ent['skip'] = True
            continue
        if op['op'] in ('area', 'p2p'):
            try:
                s.setup(op)
            except Exception as error:
                ent['raised'] = type(error).__name__
                s.mode = None
                continue
        snap = snapshot(s, op) if plan.get('watch') else None
        faults = list(op.get('faults', ())) if disturb else []
        tries = 0
        while True:
            fault = faults.pop(0) if faults else None
            step = sched.Stepper(fine, cap=CAP)
            if fault:
                step.target = fault['step']
                step.exc = EXCS[fault['exc']]
            try:
                if fault or count:
                    with step:
                        out = s.call(op)
                else:
                    out = s.call(op)
                err = None
            except sched.StepCap as error:
                ent['stuck'] = str(error)
                err = error
            except (KeyboardInterrupt, MemoryError) as error:
                err = error
            except Exception as error:
                err = error
            if snap:
                bad = changed(s, *snap)
                if bad and 'mutated' not in ent:
                    ent['mutated'] = '%s, after %s' % (
                        bad, 'an interrupted call' if step.fired else
                        'a failed call' if err is not None else 'a completed call')
            if step.fired:
                ent.setdefault('fired', []).append([fault['exc'], step.fired])
                if err is None or not sched.reaches(err, step.exc):
                    ent['swallowed'] = '%s at %s' % (fault['exc'], step.fired)
                if err is not None:
                    tries += 1
                    # the caller repeats the step; for a preparation it writes
                    # its inputs again, unless it kept values
                    continue
            if err is None:
                ent['out'] = out
            else:
                ent['raised'] = type(err).__name__
                if op['op'] in ('area', 'p2p'):
                    s.mode = None
            if count:
                ent['steps'] = step.n
            break
        ent['kwx'] = core.plain(s.prop.get('kwx'))
        if plan.get('trace'):
            p = s.prop
            ent['state'] = [p.get('mdp'), p.get('wlos'), p.get('wscat'), p.get('lvar'), ent['kwx'], s.mode]
    return history


# ----------------------------------------------------------- fresh oracles
def fresh_query(ops):
    """A brand-new session which sees only these operations."""
    plan = {'ops': ops}
    return execute(plan)[-1]


def model(plan):
    """Reference model: which fresh session each operation must agree with.

    Yields for each op the list of operations of that fresh session, or None
    if the operation is not possible.  The model is: (mode, effective
    parameters, last distance) per session.
    """
    st = {}
    out = []
    for op in plan['ops']:
        m = st.setdefault(op['s'], {'prep': None, 'dist': None, 'klim': None, 'mdvar': None})
        kind = op['op']
        if kind in ('area', 'p2p'):
            p = dict(op['p'])
            if op.get('keepk') and m['klim'] is not None and valid_klim(m['klim']):
                p['klim'] = m['klim']
            if op.get('keepm') and m['mdvar'] is not None and valid_mdvar(m['mdvar']):
                p['mdvar'] = m['mdvar']
            m['klim'], m['mdvar'] = p['klim'], p['mdvar']
            m['prep'] = {'s': 0, 'op': kind, 'p': p, 'lvar': 0, 'clear': True}
            m['dist'] = None
            m['mode'] = kind
            out.append([m['prep']])
        elif m['prep'] is None:
            out.append(None)
        elif kind == 'dist':
            if m['mode'] != 'area':
                out.append(None)
                continue
            m['dist'] = {'s': 0, 'op': 'dist', 'd': op['d']}
            out.append([m['prep'], m['dist']])
        else:
            if m['mode'] == 'area' and m['dist'] is None:
                out.append(None)
                continue
            ops = [m['prep']]
            if m['mode'] == 'area':
                ops.append(m['dist'])
            out.append(ops + [{'s': 0, 'op': 'q', 'z': op['z']}])
    return out


def check_fresh(plan, history, prop, stats):
    """C01, C02: values.  C03: the warning indicator."""
    cache = {}
    level = {}
    want = model(plan)
    for i, (op, ent, ops) in enumerate(zip(plan['ops'], history, want)):
        if ent.get('stuck'):
            return viol(prop, i, op, 'the call did not come to an end', ent['stuck'], None)
        if ent.get('skip') or ops is None:
            continue
        if len(history) > 700 and prop != 'C03' and i < len(history) - 60 and i % 23:
            continue                    # of a very long life, look at a part of the answers only
        key = core.digest(ops)
        if key not in cache:
            cache[key] = core.ask(fresh_query, ops)
        fresh = cache[key]
        stats.hit('fresh_sessions')
        if fresh.get('skip'):
            # the fresh session could not get this far (an earlier step of it
            # failed); then neither should this one
            if 'out' in ent:
                return viol(prop, i, op, 'a fresh session fails before this step', ent, fresh)
            continue
        if prop in ('C01', 'C02'):
            if ('raised' in ent) != ('raised' in fresh):
                return viol(prop, i, op, 'one fails, the other does not', ent, fresh)
            if 'out' in ent and not same(ent['out'], fresh['out']):
                return viol(prop, i, op, 'differs from a fresh session', ent, fresh)
        else:
            s = op['s']
            if op['op'] in ('area', 'p2p') and (op.get('clear') or op.get('fresh') or s not in level):
                level[s] = 0
            if 'raised' in ent or 'raised' in fresh or fresh.get('kwx') is None:
                # how far a failing call got is its own business: drop the
                # session's level until it is cleared again
                level[s] = None
            if level.get(s) is not None:
                level[s] = max(level[s], fresh['kwx'])
                if ent['kwx'] != level[s]:
                    return viol(prop, i, op, 'warning level is %s, the worst level raised since cleared is %s'
                                % (ent['kwx'], level[s]), ent, fresh)
    return None


def viol(prop, i, op, what, got, want):
    small = {k: v for k, v in op.items() if k != 'p'}
    return {'kind': what if len(what) < 60 else what[:60], 'at': i, 'op': small, 'got': got, 'expected': want,
            'what': 'operation %d (%s): %s' % (i, op['op'], what)}


# ---------------------------------------------------------------- planning
def prep_op(rng, kind, prev, p2p_points=40):
    """A preparation; often a small variation of an earlier one."""
    p = None
    if prev and rng.random() < 0.6:
        cand = [q for k, q in prev if k == kind]
        if cand:
            p = cand[-1] if rng.random() < 0.6 else rng.choice(cand)
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                p = params.perturb(rng, p)
        else:
            base = rng.choice(prev)[1]
            p = (params.area if kind == 'area' else lambda r: params.p2p(r, p2p_points))(rng)
            for k in ('fmhz', 'hg', 'ens0', 'zsys', 'eps', 'sgm', 'ipol'):
                if rng.random() < 0.7:
                    p[k] = copy.deepcopy(base[k])
    if p is None:
        p = (params.area if kind == 'area' else lambda r: params.p2p(r, p2p_points))(rng)
    return p


def tame_prep(p):
    p['hg'] = [min(max(h, 1.5), 900) for h in p['hg']]
    p['fmhz'] = min(max(p['fmhz'], 45), 9000)
    p['ens0'] = min(max(p['ens0'], 260), 390)
    p['zsys'] = 0


def gen_tiny(rng, prop):
    """A short session, every call of which is interrupted, often twice."""
    kind = rng.choice(['area', 'area', 'area', 'p2p'])
    p = (params.area if kind == 'area' else lambda r: params.p2p(r, 30))(rng)
    if rng.random() < 0.4:
        p.update(params.low(rng))
        if kind == 'area' and rng.random() < 0.5:
            p['dh'] = rng.choice([0, 10, 90])
    if prop == 'C03' and rng.random() < 0.7:
        # mild enough for each single warning to show
        tame_prep(p)
        p['ipol'] = 0
        if rng.random() < 0.7:
            p['klim'] = params.klim(rng, 0.6)
            p['mdvar'] = params.mdvar(rng, 0.3)
        if kind == 'area' and rng.random() < 0.6:
            p['kst'], p['dh'] = [0, 0], rng.choice([10, 30, 90])
    ops = [{'s': 0, 'op': kind, 'p': p, 'lvar': 0, 'clear': True}]
    if rng.random() < 0.3:
        ops[0]['direct'] = True
    los = params.los_range(p)
    for _ in range(rng.choice([1, 1, 2, 3])):
        if kind == 'area':
            d = params.pick(rng, (4, lambda: los * rng.uniform(0.05, 0.9)), (5, lambda: rng.uniform(3e5, 1.2e6)),
                            (2, lambda: params.distance(rng, p)))
            ops.append({'s': 0, 'op': 'dist', 'd': d})
        ops.append({'s': 0, 'op': 'q', 'z': [params.deviate(rng) for _ in range(3)]})
    for op in ops:
        op['at'] = [[rng.choice(sorted(EXCS)), bias(rng, op['op'] == 'q')] for _ in range(rng.choice([1, 1, 1, 2, 4]))]
    return {'world': 'session', 'prop': prop, 'ops': ops, 'fine': rng.random() < 0.3}


def gen(rng, prop):
    """One plan."""
    if prop in ('C03', 'C04') and rng.random() < (0.6 if prop == 'C04' else 0.45):
        return gen_tiny(rng, prop)
    n_sess = rng.choice([1, 1, 1, 2, 3])
    size = rng.choice([6, 10, 16, 16, 25, 40]) if rng.random() < 0.95 else rng.choice([120, 260, 600, 1300, 2600] if prop == 'C01' else [120, 260, 600])
    if prop == 'C07':
        size = min(size, 16)
    if prop == 'C04':
        size = min(size, 25)
    re_prep = {'C01': 0.03, 'C02': 0.3, 'C03': 0.18, 'C04': 0.18, 'C07': 0.2}[prop]
    modes = {'C01': ['area'], 'C02': ['area', 'p2p'], 'C03': ['area', 'area', 'p2p'],
             'C04': ['area', 'area', 'p2p'], 'C07': ['area', 'p2p']}[prop]
    if rng.random() < 0.3:
        modes = [rng.choice(modes)]
    if size >= 120 and prop != 'C02' and rng.random() < 0.8:
        n_sess, re_prep = 1, 0.002          # a long life without a new preparation
    tame = rng.random() < (0.4 if prop == 'C03' else 0.2)   # stay within validity: warnings are rare
    prev = {s: [] for s in range(n_sess)}
    cur = {s: None for s in range(n_sess)}
    dists = {s: [] for s in range(n_sess)}
    devs = []
    ops = []
    style = rng.choice(['random', 'random', 'up', 'down', 'zigzag', 'repeat'])
    flow = {s: None for s in range(n_sess)}
    force = {s: True for s in range(n_sess)}
    shared = prev[0] if rng.random() < 0.5 else None     # sessions with related parameters
    while len(ops) < size:
        s = rng.randrange(n_sess)
        if force[s] or rng.random() < re_prep:
            kind = rng.choice(modes)
            p = prep_op(rng, kind, shared if shared else prev[s])
            if tame:
                tame_prep(p)
                if prop == 'C03' and rng.random() < 0.7:
                    p['ipol'] = 0
                p['klim'] = p['klim'] if valid_klim(p['klim']) else 3
                p['mdvar'] = p['mdvar'] if valid_mdvar(p['mdvar']) else 12
            op = {'s': s, 'op': kind, 'p': p, 'lvar': rng.choice([0, 0, 5, None])}
            if not force[s]:
                if rng.random() < 0.25:
                    op['keepk'] = True
                if rng.random() < 0.25:
                    op['keepm'] = True
                if rng.random() < 0.04:
                    op['fresh'] = True
            if rng.random() < 0.2:
                op['direct'] = True
            if rng.random() < 0.4:
                op['inplace'] = True
            op['clear'] = rng.random() < (0.35 if prop == 'C03' else 0.7)
            ops.append(op)
            prev[s].append((kind, p))
            cur[s] = (kind, p)
            force[s] = False
            flow[s] = None
            if kind == 'area' and rng.random() < 0.5:
                flow[s] = params.los_range(p) * rng.uniform(0.05, 1.2)
            continue
        kind, p = cur[s]
        if kind == 'area' and (not dists[s] or ops[-1]['op'] in ('area',) or rng.random() < 0.5):
            if dists[s] and rng.random() < (0.5 if style == 'repeat' else 0.2):
                d = rng.choice(dists[s])
                if rng.random() < 0.35:
                    d = max(0, params.near(rng, d))
            elif flow[s] is not None and style in ('up', 'down'):
                flow[s] = flow[s] * (rng.uniform(1.02, 1.6) if style == 'up' else rng.uniform(0.6, 0.98))
                d = params.num(rng, flow[s])
            else:
                d = params.distance(rng, p)
            if tame:
                d = min(max(d, 3000.0), 900e3)
            dists[s].append(d)
            ops.append({'s': s, 'op': 'dist', 'd': d})
            if rng.random() < 0.15:
                ops[-1]['about'] = about(rng)
        else:
            if devs and rng.random() < 0.4:
                z = list(rng.choice(devs))
                if rng.random() < 0.6:
                    z[rng.randrange(3)] = params.deviate(rng)
                elif rng.random() < 0.3:
                    j = rng.randrange(3)
                    z[j] = z[j] + rng.choice([1e-4, -1e-4, 0.003])
            else:
                z = [params.deviate(rng) for _ in range(3)]
            if tame and rng.random() < 0.9:
                z = [min(max(x, -3.0), 3.0) for x in z]
            devs.append(z)
            ops.append({'s': s, 'op': 'q', 'z': z})
    plan = {'world': 'session', 'prop': prop, 'ops': ops}
    if prop in ('C04', 'C07'):
        plan['fine'] = rng.random() < 0.35
        rate = rng.choice([0.08, 0.2, 0.5])
        for op in ops:
            if rng.random() < rate:
                op['at'] = [[rng.choice(sorted(EXCS)), bias(rng)]
                            for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if prop == 'C07':
            plan['watch'] = True
    elif prop == 'C03' and rng.random() < 0.35:
        for op in ops:
            if rng.random() < 0.15:
                op['at'] = [[rng.choice(sorted(EXCS)), bias(rng)]]
    return plan


def about(rng):
    """A distance close to where one range of propagation meets the next."""
    return [rng.choice(['dlsa', 'dx', 'dx', 'dla']), 1 + rng.choice([1, -1]) * params.logu(rng, 1e-7, 0.3)]


def borders(preps):
    """Where the ranges meet, for each preparation, as far as that can be seen."""
    out = []
    for p in preps:
        s = Session()
        try:
            s.setup(p)
            s.call(p)
            s.call({'op': 'dist', 'd': 8e5})
            out.append({k: core.plain(s.prop[k]) for k in ('dlsa', 'dx', 'dla') if k in s.prop})
        except Exception:
            out.append({})
    return out


def settle(plan):
    """Give the distances asked for relative to a border their values."""
    if not any('about' in op for op in plan['ops']):
        return
    todo, preps, seen = [], [], {}
    for op, ops in zip(plan['ops'], model(plan)):
        if 'about' in op and ops and ops[0]['op'] == 'area':
            key = core.digest(ops[0])
            if key not in seen:
                seen[key] = len(preps)
                preps.append(ops[0])
            todo.append((op, seen[key]))
    got = core.ask(borders, preps)
    for op, i in todo:
        x = got[i].get(op['about'][0])
        if isinstance(x, (int, float)) and 0 < x < 3e6:
            op['d'] = x * op['about'][1]


def bias(rng, early=False):
    """Where in a call to interrupt it: anywhere, or near an end."""
    if early and rng.random() < 0.2:
        return 0.3 * rng.random()
    return rng.random() if rng.random() < 0.65 else 1 - 0.12 * rng.random()


# ----------------------------------------------------------------- running
def resolve(plan, undisturbed):
    """Turn relative interrupt points into step numbers."""
    for op, ent in zip(plan['ops'], undisturbed):
        if 'at' in op and 'steps' in ent and 'faults' not in op:
            op['faults'] = [{'exc': e, 'step': 1 + int(f * ent['steps'])} for e, f in op['at']]


def run(plan):
    """-> (violation or None, stats, info)"""
    stats = core.Stats()
    prop = plan['prop']
    plan = copy.deepcopy(plan)
    plan['trace'] = True
    settle(plan)
    quiet = None
    if prop in ('C04', 'C07') or any('at' in op for op in plan['ops']):
        quiet = core.ask(execute, plan, False, True)
        resolve(plan, quiet)
    history = core.ask(execute, plan)
    stats.hit('operations', n=len(history))
    for ent in history:
        for exc, place in ent.get('fired', ()):
            stats.hit('faults', exc)
            stats.hit('places', place)
        if 'state' in ent:
            stats.hit('ops', ent['op'])
            if ent.get('state')[1]:
                stats.hit('probes', 'line-of-sight coefficients in use')
            if ent.get('state')[2]:
                stats.hit('probes', 'scatter coefficients in use')
        if 'raised' in ent:
            stats.hit('probes', 'call failed by itself')
        if ent.get('kwx') is not None:
            stats.hit('probes', 'warning level %s' % ent['kwx'])
    info = {'digest': core.digest([[e.get('op'), e.get('s'), e.get('out'), e.get('raised'), e.get('kwx'),
                                    e.get('fired')] for e in history]),
            'states': sorted({core.digest(e['state']) for e in history if 'state' in e}),
            'path': core.digest([[e['op'], e['s'], e.get('state'), e.get('fired')] for e in history])}
    v = None
    if prop in ('C01', 'C02', 'C03'):
        v = check_fresh(plan, history, prop, stats)
    elif prop == 'C04':
        v = check_retry(plan, history, quiet)
    elif prop == 'C07':
        for i, (op, ent) in enumerate(zip(plan['ops'], history)):
            if ent.get('mutated'):
                v = viol(prop, i, op, "the caller's data changed", ent['mutated'], 'unchanged')
                break
        if v is None:
            for i, (op, ent) in enumerate(zip(plan['ops'], quiet)):
                if ent.get('mutated'):
                    v = viol(prop, i, op, "the caller's data changed", ent['mutated'], 'unchanged')
                    break
    return v, stats, info


def check_retry(plan, history, quiet):
    for i, (op, ent, ref) in enumerate(zip(plan['ops'], history, quiet)):
        if ent.get('stuck') or ref.get('stuck'):
            return viol('C04', i, op, 'the call did not come to an end', ent.get('stuck'), None)
        if ent.get('swallowed'):
            return viol('C04', i, op, 'the exception did not reach the caller', ent['swallowed'], 'exception')
        for k in ('skip', 'raised'):
            if (k in ent) != (k in ref):
                return viol('C04', i, op, 'one fails, the other does not', ent, ref)
        if 'out' in ent and not same(ent['out'], ref['out']):
            return viol('C04', i, op, 'differs from the undisturbed session', ent, ref)
    return None


# ------------------------------------------------------------------- sweep
# One short session; each of its calls is cut short at many points, each time
# starting from a copy of the session as it was before the call.  Cheap, since
# nothing but the interrupted call is traced and no process is started per point.

def gen_sweep(rng, prop):
    plan = gen_tiny(rng, prop)
    if rng.random() < 0.5:
        # prepared a second time: there is earlier state to be left behind
        more = gen_tiny(rng, prop)['ops']
        more[0]['clear'] = rng.random() < 0.5
        if rng.random() < 0.6 and plan['ops'][0]['op'] == more[0]['op']:
            more[0]['p'] = params.perturb(rng, plan['ops'][0]['p'])
        plan['ops'] = plan['ops'][:4] + more
    plan['ops'] = plan['ops'][:9]
    for op in plan['ops']:
        op.pop('at', None)
        n = {'area': 12, 'p2p': 30, 'dist': 40, 'q': 40}[op['op']]
        op['points'] = [[rng.choice(sorted(EXCS)), bias(rng, op['op'] == 'q')] for _ in range(n)]
    plan['world'] = 'sweep'
    plan['fine'] = rng.random() < 0.3
    return plan


def attempt(s, op, step=None):
    """-> (entry, error)"""
    try:
        if step is not None:
            with step:
                out = s.call(op)
        else:
            out = s.call(op)
        return {'out': out, 'kwx': core.plain(s.prop.get('kwx'))}, None
    except (sched.StepCap, KeyboardInterrupt, Exception) as error:
        return {'raised': type(error).__name__, 'kwx': core.plain(s.prop.get('kwx'))}, error


def rest(s, ops):
    """The remaining operations, undisturbed."""
    out = []
    for op in ops:
        if not s.possible(op):
            out.append({'skip': True})
            continue
        if op['op'] in ('area', 'p2p'):
            try:
                s.setup(op)
            except Exception as error:
                out.append({'raised': type(error).__name__})
                s.mode = None
                continue
        ent, err = attempt(s, op)
        if err is not None and op['op'] in ('area', 'p2p'):
            s.mode = None
        out.append(ent)
    return out


def exec_sweep(plan):
    """-> (violation or None, fired places, references)"""
    ops = plan['ops']
    fine = plan.get('fine', False)
    prop = plan['prop']
    fired = []
    ref = rest(Session(), ops)
    s = Session()
    for k, op in enumerate(ops):
        if ref[k].get('skip'):
            continue
        if op['op'] in ('area', 'p2p'):
            try:
                s.setup(op)
            except Exception:
                s.mode = None
                continue
        before = s
        count = sched.Stepper(fine, cap=CAP)
        attempt(copy.deepcopy(before), op, count)
        if not ref[k].get('raised'):
            for exc, where in op.get('points', ()):
                t = copy.deepcopy(before)
                snap = snapshot(t, op)
                step = sched.Stepper(fine, 1 + int(where * count.n), EXCS[exc], CAP)
                ent, err = attempt(t, op, step)
                if not step.fired:
                    continue
                fired.append([k, exc, step.fired])
                bad = changed(t, *snap)
                if bad and prop == 'C07':
                    return ['C07', k, op, "the caller's data changed", bad, fired[-1]], fired, ref
                if prop == 'C04' and (err is None or not sched.reaches(err, step.exc)):
                    return ['C04', k, op, 'the exception did not reach the caller', ent, fired[-1]], fired, ref
                ent, err = attempt(t, op)
                got = [ent] + rest(t, ops[k + 1:])
                for j, (g, r) in enumerate(zip(got, ref[k:])):
                    if prop == 'C04' and (
                            ('raised' in g) != ('raised' in r) or ('skip' in g) != ('skip' in r) or
                            not same(g.get('out'), r.get('out'))):
                        return ['C04', k + j, ops[k + j], 'differs from the undisturbed session', [g, r],
                                fired[-1]], fired, ref
                    if prop == 'C03' and 'raised' not in g and g.get('kwx') != r.get('kwx'):
                        return ['C03', k + j, ops[k + j], 'warning level differs from that of an undisturbed session',
                                [g.get('kwx'), r.get('kwx')], fired[-1]], fired, ref
        ent, err = attempt(s, op)
        if err is not None and op['op'] in ('area', 'p2p'):
            s.mode = None
    return None, fired, ref


def run_sweep(plan):
    stats = core.Stats()
    bad, fired, ref = core.ask(exec_sweep, plan)
    for _, exc, place in fired:
        stats.hit('faults', exc)
        stats.hit('places', place)
    stats.hit('operations', n=len(plan['ops']) + len(fired))
    for r in ref:
        if r.get('kwx') is not None:
            stats.hit('probes', 'warning level %s' % r['kwx'])
    v = None
    if bad:
        _, k, op, what, detail, where = bad
        v = viol(plan['prop'], k, {a: b for a, b in op.items() if a != 'points'}, what, detail, None)
        v['what'] += '; cut short by %s in operation %d at %s' % (where[1], where[0], where[2])
        v['faults'] = where
    info = {'digest': core.digest([ref, fired]), 'path': core.digest([[r.get('kwx') for r in ref], fired]),
            'states': sorted({core.digest([plan['ops'][k]['op'], e, p]) for k, e, p in fired})}
    return v, stats, info


def shrink_sweep(plan, fails, budget):
    plan = copy.deepcopy(plan)
    for i in range(len(plan['ops'])):
        if budget[0] <= 0:
            break

        def only(pts):
            q = copy.deepcopy(plan)
            q['ops'][i]['points'] = pts
            return q
        budget[0] -= 1
        if fails(only([])):
            plan = only([])
        else:
            plan = only(core.ddmin_list(plan['ops'][i]['points'], lambda pts: fails(only(pts)), budget))
    plan['ops'] = core.ddmin_list(plan['ops'], lambda ops: bool(ops) and fails(dict(plan, ops=ops)), budget)
    return plan


# ------------------------------------------------------------ minimisation
def shrink(plan, fails, budget):
    plan = copy.deepcopy(plan)

    def with_ops(ops):
        q = dict(plan)
        q['ops'] = ops
        return q
    plan['ops'] = core.ddmin_list(plan['ops'], lambda ops: bool(ops) and fails(with_ops(ops)), budget)
    for i, op in enumerate(list(plan['ops'])):
        for key in ('at', 'faults', 'keepk', 'keepm', 'direct', 'inplace', 'clear'):
            if key in op and budget[0] > 0:
                q = copy.deepcopy(plan)
                del q['ops'][i][key]
                if key == 'at':
                    q['ops'][i].pop('faults', None)
                budget[0] -= 1
                if fails(q):
                    plan = q
    # shorter profiles
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'p2p':
            while len(op['p']['pfl']) > 8 and budget[0] > 0:
                q = copy.deepcopy(plan)
                pfl = q['ops'][i]['p']['pfl']
                half = pfl[2:2 + max(5, (len(pfl) - 2) // 2)]
                q['ops'][i]['p']['pfl'] = [len(half) - 1, pfl[1]] + half
                budget[0] -= 1
                if not fails(q):
                    break
                plan = q
                op = plan['ops'][i]
    return plan
