"""Jobs: single calls of the public functions, from small helpers to whole runners.

A job is plain data.  `perform(job, shared)` builds fresh arguments from it
(or uses the shared read-only ones), calls the real code and returns plain
data, or {'raised': type} if the call failed.
"""
import copy
import os

from . import core, params, session

HELPERS = ('qerf', 'qerfi', 'qtile', 'zlsq1', 'dlthx', 'hzns', 'curv', 'fht', 'aknfe', 'ahd', 'h0f', 'qlrps')


def scripts():
    import area
    import area_2tiles
    import p2p
    import p2p_2tiles
    import pimter
    import terrain_module
    return {'area': area, 'area_2tiles': area_2tiles, 'p2p': p2p, 'p2p_2tiles': p2p_2tiles,
            'pimter': pimter, 'terrain_module': terrain_module}


def helper(name):
    from itmlogic.misc import qerf, qerfi, qtile
    from itmlogic.preparatory_subroutines import zlsq1, dlthx, hzns, qlrps
    from itmlogic.statistics import curv
    from itmlogic.diffraction_attenuation import fht, aknfe
    from itmlogic.scatter_attenuation import ahd, h0f
    return getattr(locals()[name], name)


# ---------------------------------------------------------------- arguments
def args_of(job, shared=None, pool=None):
    """Fresh argument objects; shared ones where the job says so; objects of
    `pool` refilled in place where the job says 'reuse'."""
    args = copy.deepcopy(job['args'])
    if job.get('order') and 'spoilt' not in job:
        args[0] = {k: args[0][k] for k in job['order']}
    if job.get('keys'):                 # equal records whose keys come in another order
        args = [mixed(a, job['keys']) for a in args]
    if job.get('form') == 'array':
        import numpy as np
        return [np.array(a) if isinstance(a, list) and all(type(x) in (int, float) for x in a) else a for a in args]
    if shared is not None and 'shared' in job:
        i, which = job['shared']
        args[i] = shared[which]
    if pool is not None and job.get('reuse'):
        for i, a in enumerate(args):
            key = (job['fn'], i)
            old = pool.get(key)
            if isinstance(a, list) and isinstance(old, list):
                old[:] = a
                args[i] = old
            elif isinstance(a, dict) and isinstance(old, dict):
                for k, v in a.items():
                    if isinstance(v, list) and isinstance(old.get(k), list):
                        old[k][:] = v
                    else:
                        old[k] = v
                args[i] = old
            elif isinstance(a, (list, dict)):
                pool[key] = a
    return args


def twist(rng, job):
    """A record with the same values in the same order under other keys."""
    j = copy.deepcopy(job)
    for k in ('keys', 'form', 'shared', 'reuse', 'fault'):
        j.pop(k, None)
    rec = j['args'][0]
    ks = j.pop('order', None) or list(rec)
    a, b = 'fmhz', 'dh' if 'dh' in rec else 'd'
    if a not in rec or b not in rec:
        return j
    rec[a], rec[b] = rec[b], rec[a]
    j['order'] = [{a: b, b: a}.get(k, k) for k in ks]
    return j


def mixed(a, seed):
    import random
    if isinstance(a, dict):
        ks = sorted(a, key=str)
        random.Random(seed).shuffle(ks)
        return {k: mixed(a[k], seed) for k in ks}
    return a


def call(job, args):
    fn = job['fn']
    if fn in HELPERS:
        return core.plain(helper(fn)(*args))
    if fn == 'session':
        h = session.execute({'ops': args[0]})
        return [[e.get('out'), 'raised' in e, e.get('kwx')] for e in h]
    mod = scripts()
    if fn in ('area', 'area_2tiles'):
        return core.plain(mod[fn].itmlogic_area(args[0]))
    if fn in ('p2p', 'p2p_2tiles'):
        return core.plain(mod[fn].itmlogic_p2p(args[0], args[1]))
    if fn == 'pimter':
        return core.plain(mod['pimter'].run_itmlogic(args[0], args[1]))
    t = mod['terrain_module']
    if fn == 'num_samples':
        return core.plain(t.determine_num_samples(args[0]))
    if fn == 'interdecile':
        return core.plain(t.interdecile_range(args[0]))
    if fn == 'buffer':
        g = t.geodesic_point_buffer(*args)
        return core.plain([list(c) for c in g.exterior.coords])
    if fn == 'line':
        return core.plain(mod['p2p'].straight_line_from_points(*args))
    if fn == 'terrain_p2p':
        z, d, pts = t.terrain_p2p(dem_path(args[0]), line(args[1]))
        return core.plain([list(z), d, [dict(p) for p in pts]])
    if fn == 'terrain_area':
        return core.plain(t.terrain_area(dem_path(args[0]), args[1], args[2], args[3]))
    if fn == 'terrain_line':
        z, d, pts = t.terrain_p2p(dem_path(args[0]), args[1])
        return core.plain([list(z), d, [dict(p) for p in pts]])
    if fn == 'csv':
        mod[args[0]].csv_writer(args[1], OUT_DIR[0], 'r.csv')
        return None
    if fn == 'shp':
        mod[args[0]].write_shapefile(args[1], OUT_DIR[0], 'r.shp', 'EPSG:4326')
        return None
    raise core.HarnessError('no job ' + fn)


def line(coords):
    return {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [tuple(c) for c in coords]},
            'properties': {'id': 'x'}}


DEM_DIR = [None]
OUT_DIR = [None]


def dem_path(name):
    return os.path.join(DEM_DIR[0], name)


def perform(job, shared=None, pool=None, stepper=None):
    args = args_of(job, shared, pool)
    try:
        if stepper is not None:
            with stepper:
                return call(job, args)
        return call(job, args)
    except (Exception, KeyboardInterrupt) as error:
        return {'raised': type(error).__name__}


def agree(a, b):
    if isinstance(a, dict) and 'raised' in a:
        return isinstance(b, dict) and 'raised' in b
    return core.same(a, b)


# --------------------------------------------------------------- generating
def profile(rng, n=None):
    n = n or max(5, params.points(rng, 70))
    step = params.num(rng, params.logu(rng, 50, 3000))
    return [n - 1, step] + params.terrain(rng, n, step) + params.surplus(rng)


def gen_helper(rng, fn=None):
    fn = fn or rng.choice(HELPERS)
    a = None
    if fn == 'qerf':
        a = [rng.choice([0, 10, -10, 10.5, -12.0]) if rng.random() < 0.1 else round(rng.gauss(0, 3), 3)]
    elif fn == 'qerfi':
        a = [[round(rng.uniform(0.001, 0.999), 3) for _ in range(rng.randrange(1, 6))]]
        if rng.random() < 0.3:                  # far out, where small differences tell
            a[0][0] = round(rng.choice([rng.uniform(0.0005, 0.01), rng.uniform(0.99, 0.9995)]), 5)
        if rng.random() < 0.35:
            a[0][rng.randrange(len(a[0]))] = rng.choice([0, 1, 0.0, 1.0, 0.5, 1e-9, 0.9999999, 1e-5, 3e-4, 0.99996, 1.5, -0.2, 50])
        elif rng.random() < 0.1:
            a[0].append(a[0][0])
    elif fn == 'qtile':
        n = rng.randrange(3, 40)
        a = [[round(rng.gauss(100, 50), 1) for _ in range(n)], rng.randrange(n)]
    elif fn in ('zlsq1', 'dlthx'):
        p = profile(rng)
        length = p[0] * p[1]
        x = sorted([rng.uniform(0, 0.45) * length, rng.uniform(0.55, 1) * length])
        a = [p, x[0], x[1]]
    elif fn == 'hzns':
        p = profile(rng)
        a = [p, p[0] * p[1], [params.height(rng), params.height(rng)], rng.uniform(1e-7, 1.4e-7)]
    elif fn == 'curv':
        a = [rng.uniform(-10, 10), rng.uniform(1, 100), rng.uniform(9e4, 7e5), rng.uniform(9e4, 2e5),
             rng.uniform(9e4, 2e5), rng.uniform(0, 5e5)]
    elif fn == 'fht':
        a = [rng.choice([1, 200, 2000, 199.9]) if rng.random() < 0.1 else params.logu(rng, 1, 5000),
             rng.choice([1e-5, 1, 9e-6]) if rng.random() < 0.1 else params.logu(rng, 1e-6, 1)]
    elif fn == 'aknfe':
        a = [rng.choice([0, 0.0, 5.76, -0.5]) if rng.random() < 0.1 else rng.uniform(-1, 15)]
    elif fn == 'ahd':
        a = [rng.choice([10e3, 70e3, 10001.0]) if rng.random() < 0.1 else params.logu(rng, 100, 3e5)]
    elif fn == 'h0f':
        a = [params.logu(rng, 0.05, 50), rng.uniform(0, 7)]
    elif fn == 'qlrps':
        p = params.radio(rng)
        a = [p['fmhz'], p['zsys'], p['ens0'], p['ipol'], p['eps'], p['sgm']]
    return {'fn': fn, 'args': a}


def gen_session(rng, base=None):
    if base is not None:
        ops = copy.deepcopy(base['args'][0])
        for op in ops:
            if 'p' in op and rng.random() < 0.7:
                op['p'] = params.perturb(rng, op['p'])
            elif op['op'] == 'dist' and rng.random() < 0.5:
                op['d'] = params.near(rng, op['d']) if rng.random() < 0.5 else op['d'] * rng.uniform(0.5, 2)
            elif op['op'] == 'q' and rng.random() < 0.3:
                op['z'] = [params.deviate(rng) for _ in range(3)]
        return {'fn': 'session', 'args': [ops]}
    kind = rng.choice(['area', 'p2p'])
    p = params.area(rng) if kind == 'area' else params.p2p(rng, 40)
    if rng.random() < 0.15:             # what is put in place of an inadmissible choice
        p['klim'], p['mdvar'] = params.klim(rng, 0.6), params.mdvar(rng, 0.5)
    ops = [{'s': 0, 'op': kind, 'p': p, 'lvar': 0, 'clear': True}]
    for _ in range(rng.randrange(1, 5)):
        if kind == 'area':
            ops.append({'s': 0, 'op': 'dist', 'd': params.distance(rng, p)})
        ops.append({'s': 0, 'op': 'q', 'z': [params.deviate(rng) for _ in range(3)]})
    return {'fn': 'session', 'args': [ops]}


def gen_runner(rng, fn=None, small=False):
    fn = fn or rng.choice(['area', 'area', 'area_2tiles', 'p2p', 'p2p', 'p2p_2tiles', 'pimter'])
    if fn in ('area', 'area_2tiles'):
        return {'fn': fn, 'args': [{'hg': [params.height(rng), params.height(rng)],
                                    'fmhz': params.num(rng, params.logu(rng, 20, 10000)),
                                    'dh': params.num(rng, rng.uniform(1, 300)), 'ipol': rng.randrange(2)}]}
    if fn in ('p2p', 'p2p_2tiles'):
        n = max(6, params.points(rng, 60))
        return {'fn': fn, 'args': [{'hg': [params.height(rng), params.height(rng)],
                                    'fmhz': params.num(rng, params.logu(rng, 20, 10000)),
                                    'd': params.num(rng, rng.uniform(3, 150)), 'ipol': rng.randrange(2)},
                                   params.terrain(rng, n, 500)]}
    n = rng.randrange(5, 14 if small else 30)
    step = rng.choice([2, 5, 10, 25.5])
    return {'fn': 'pimter', 'args': [params.terrain(rng, n, 30), [step * i for i in range(n)]]}


def gen_terrain(rng, world):
    """world: descriptions of the DEMs at hand, see dem.py"""
    k = rng.random()
    if k < 0.15:
        return {'fn': 'num_samples', 'args': [params.logu(rng, 1, 3e5)]}
    if k < 0.3:
        return {'fn': 'interdecile', 'args': [[rng.randrange(0, 300) for _ in range(rng.randrange(3, 60))]]}
    if k < 0.4:
        return {'fn': 'buffer', 'args': [round(rng.uniform(-60, 60), 3), round(rng.uniform(-60, 60), 3),
                                         rng.choice([500, 3000, 20000])]}
    if k < 0.5:
        def pt():
            return {'geometry': {'coordinates': [rng.uniform(-1, 1), rng.uniform(50, 52)]}}
        return {'fn': 'line', 'args': [pt(), pt()]}
    from . import dem
    d = rng.choice(world)
    if k < 0.75:
        return {'fn': 'terrain_p2p', 'args': [d['name'], dem.short_line(rng, d)]}
    return {'fn': 'terrain_area', 'args': [d['name']] + dem.circle(rng, d)}


def vary(rng, job):
    """The same job with something changed."""
    fn = job['fn']
    j = copy.deepcopy(job)
    j.pop('shared', None)
    j.pop('reuse', None)
    j.pop('form', None)
    j.pop('keys', None)
    j.pop('order', None)
    if fn == 'session':
        return gen_session(rng, job)
    if fn in ('area', 'area_2tiles', 'p2p', 'p2p_2tiles'):
        u = j['args'][0]
        k = rng.choice(['hg0', 'hg1', 'fmhz', 'ipol'] + [x for x in ('dh', 'd') if x in u] +
                       (['pfl', 'pfl'] if fn.startswith('p2p') else []))
        if k == 'hg0':
            u['hg'][0] = params.height(rng)
        elif k == 'hg1':
            u['hg'][1] = params.height(rng)
        elif k == 'fmhz':
            u['fmhz'] = u['fmhz'] + rng.choice([0.2, 1, 35])
        elif k == 'ipol':
            u['ipol'] = 1 - u['ipol']
        elif k in ('dh', 'd'):
            u[k] = u[k] + rng.choice([0.2, 1, 9])
        else:
            j['args'][1] = params.twist(rng, j['args'][1])
        if rng.random() < 0.3:
            k = rng.choice([k for k in ('fmhz', 'dh', 'd') if k in u])
            u[k] = params.hair(rng, u[k])
        elif rng.random() < 0.1:
            u['hg'] = u['hg'][::-1]
        return j
    if fn == 'pimter':
        j['args'][0] = params.twist(rng, j['args'][0])
        return j
    if fn in HELPERS and fn not in ('qlrps',):
        k = [i for i, a in enumerate(j['args']) if isinstance(a, (float, list))]
        if k:
            i = rng.choice(k)
            a = j['args'][i]
            lo = 2 if fn in ('zlsq1', 'dlthx', 'hzns') and i == 0 else 0
            if isinstance(a, float):
                j['args'][i] = params.hair(rng, a) if rng.random() < 0.5 else a * rng.choice([1.0005, 1.1, 0.7])
            elif rng.random() < 0.5 and fn != 'qerfi':
                j['args'][i] = params.twist(rng, a, lo)
            else:
                m = rng.randrange(lo, len(a))
                a[m] = a[m] + (rng.choice([0.001, 4e-6]) if fn == 'qerfi' else rng.choice([0.5, 7, 60]))
                if fn == 'qerfi':
                    a[m] = min(a[m], 0.9999)
            return j
    if fn == 'qlrps':
        i = rng.randrange(6)
        a = j['args']
        if i == 3:
            a[3] = 1 - a[3]
        elif rng.random() < 0.5:
            a[i] = params.hair(rng, a[i]) if a[i] else 60
        else:
            a[i] = gen_helper(rng, fn)['args'][i]
        return j
    if fn in HELPERS:
        return gen_helper(rng, fn)
    if fn == 'interdecile':
        if rng.random() < 0.5:
            j['args'][0] = params.twist(rng, j['args'][0])
            return j
        i = rng.randrange(len(j['args'][0]))
        j['args'][0][i] += 77
        return j
    if fn in ('terrain_area', 'terrain_p2p') and j['args'][0].startswith(('v0/', 'v1/')) and rng.random() < 0.5:
        j['args'][0] = {'v0': 'v1', 'v1': 'v0'}[j['args'][0][:2]] + j['args'][0][2:]
        return j                        # the file of the same name in the other folder
    if fn == 'terrain_area':            # a little further, a little wider
        i = rng.choice([1, 2, 3, 3])
        a = j['args']
        if i == 3:
            a[3] = params.hair(rng, a[3]) if rng.random() < 0.3 else a[3] * rng.choice([1.0004, 1.02, 0.8])
        else:
            a[i] = a[i] + rng.choice([-1, 1]) * params.logu(rng, 1e-6, 3e-3)
        return j
    if fn in ('terrain_p2p', 'line'):
        c = rng.choice(j['args'][1]) if fn == 'terrain_p2p' else rng.choice(j['args'])['geometry']['coordinates']
        i = rng.randrange(2)
        c[i] = c[i] + rng.choice([-1, 1]) * params.logu(rng, 1e-7, 1e-4)
        return j
    if fn in ('num_samples', 'buffer'):
        i = rng.randrange(len(j['args']))
        j['args'][i] = params.hair(rng, j['args'][i]) if rng.random() < 0.4 else j['args'][i] * rng.choice([1.0004, 1.05])
        return j
    return j


def reform(rng, job):
    """Hand over what may be a list as an array."""
    if job['fn'] in ('p2p', 'p2p_2tiles', 'interdecile', 'qtile', 'qerfi') and 'shared' not in job:
        job['form'] = 'array'
    return job


def spoil(rng, job):
    """The same job with an input no prediction can be made from: it fails."""
    j = copy.deepcopy(job)
    if 'spoilt' in j:
        return j
    j.pop('shared', None)
    j['spoilt'] = True
    fn, a = j['fn'], j['args']
    if fn == 'session':
        p = a[0][0]['p']
        k = rng.choice(['hg', 'pfl', 'ens0', 'fmhz'])
        if k == 'hg':
            p['hg'] = [rng.choice([-20.0, 'x', None]), p['hg'][1]]
        elif k == 'pfl' and 'pfl' in p:
            p['pfl'] = p['pfl'][:rng.choice([2, 4, len(p['pfl']) - 1])]
        else:
            p[k] = rng.choice([None, 0, 'abc'])
    elif fn in ('area', 'area_2tiles', 'p2p', 'p2p_2tiles'):
        k = rng.choice(sorted(a[0]))
        if fn.startswith('p2p') and rng.random() < 0.5:
            i = rng.randrange(len(a[1]))
            a[1][i] = rng.choice([None, 'x'])
        elif rng.random() < 0.5:
            del a[0][k]
        else:
            a[0][k] = rng.choice([None, 'x'])
    elif isinstance(a[0], list):
        if a[0] and rng.random() < 0.6:
            a[0][rng.randrange(len(a[0]))] = rng.choice([None, 'x'])
        else:
            a[0] = rng.choice([[], None, a[0][:3]])
    else:
        a[0] = rng.choice([None, 'x'])
    return j


def gen_any(rng, world, weights=(3, 3, 3, 1)):
    return params.pick(rng, (weights[0], lambda: gen_helper(rng)), (weights[1], lambda: gen_session(rng)),
                       (weights[2], lambda: gen_runner(rng, small=True)),
                       (weights[3] if world else 0, lambda: gen_terrain(rng, world)))
