"""The runner world (C13, C08): the scripts as a user starts them, one after
the other in one working folder, killed or starved of disk space at times."""
import copy
import errno
import json
import os
import runpy
import shutil
import sys

from . import core, dem, jobs, shim, storage
from .parallel import clip, scratch

E = errno
SCRIPTS = ['area', 'p2p', 'area_2tiles', 'p2p_2tiles', 'pimter']
RESULTS = {'area': 'area_results.csv', 'p2p': 'p2p_results.csv', 'area_2tiles': 'area_results_2tiles.csv',
           'p2p_2tiles': 'p2p_results_2tiles.csv'}
PROFILES = ['PIMTER_Tx_Rx1', 'PIMTER_2019_Rx_Tx0', 'PIMTER_2019_Rx_Tx2', 'PIMTER_2019_Rx_Tx3', 'PIMTER_2019_Rx_Tx4',
            'PIMTER_2019_Rx_Tx5']


def dataset(folder, seed):
    """The input data, small but of the layout the scripts expect."""
    import numpy as np
    import rasterio
    from rasterio.transform import from_origin
    data = os.path.join(folder, 'data')
    os.makedirs(os.path.join(data, 'pimter'), exist_ok=True)
    r = np.random.RandomState(seed % (1 << 31))

    def hills(ny, nx):
        y, x = np.mgrid[0:ny, 0:nx].astype(float)
        z = np.full(x.shape, 30.0)
        for _ in range(12):
            z += r.uniform(10, 300) * np.exp(-((x - r.uniform(0, nx)) ** 2 + (y - r.uniform(0, ny)) ** 2) /
                                             (2 * r.uniform(4, 30) ** 2))
        return np.round(z).astype('int16')

    def tif(path, z, lon, top, cell):
        with rasterio.open(path, 'w', driver='GTiff', height=z.shape[0], width=z.shape[1], count=1, dtype='int16',
                           crs='EPSG:4326', transform=from_origin(lon, top, cell, cell), nodata=-9999) as dst:
            dst.write(z, 1)
    tif(os.path.join(data, 'ASTGTM2_N51W001_dem.tif'), hills(200, 200), -1.0, 52.0, 0.005)
    for k in range(2):
        tif(os.path.join(data, 's%d.tif' % k), hills(100, 100), 26.0 + k, -3.0, 0.01)
    xml = ['<VRTDataset rasterXSize="200" rasterYSize="100"><SRS>EPSG:4326</SRS>',
           '<GeoTransform>26.0, 0.01, 0, -3.0, 0, -0.01</GeoTransform>',
           '<VRTRasterBand dataType="Int16" band="1"><NoDataValue>-9999</NoDataValue>']
    for k in range(2):
        xml.append('<SimpleSource><SourceFilename relativeToVRT="1">s%d.tif</SourceFilename><SourceBand>1</SourceBand>'
                   '<SrcRect xOff="0" yOff="0" xSize="100" ySize="100"/><DstRect xOff="%d" yOff="0" xSize="100" '
                   'ySize="100"/></SimpleSource>' % (k, 100 * k))
    xml.append('</VRTRasterBand></VRTDataset>')
    with open(os.path.join(data, 'S_AVE_DSM.vrt'), 'w') as f:
        f.write(''.join(xml))
    for h in PROFILES:
        z = 200 + np.cumsum(r.uniform(-3, 3, 12))
        with open(os.path.join(data, 'pimter', h + '_dem_height.csv'), 'w') as f:
            f.write(''.join('%.3f\n' % v for v in z))
        with open(os.path.join(data, 'pimter', h + '_dem_length.csv'), 'w') as f:
            f.write(''.join('%.1f\n' % (25.0 * i) for i in range(12)))


def start(script, folder):
    """What `python scripts/<script>.py` does."""
    os.chdir(folder)
    sys.argv = [script + '.py']
    runpy.run_path(os.path.join(core.REPO, 'scripts', script + '.py'), run_name='__main__')


def predicted(script, folder):
    """Run the script undisturbed and catch what its prediction returned."""
    caught = []

    def prof(frame, event, arg):
        if event == 'return' and frame.f_code.co_name in ('itmlogic_area', 'itmlogic_p2p') and arg:
            caught.append(core.plain(arg))
    sys.setprofile(prof)
    try:
        start(script, folder)
    finally:
        sys.setprofile(None)
    return caught


def outputs(folder):
    """All files below the output folders, in comparable form."""
    out = {}
    for top in ('results', 'data/processed'):
        for dp, dn, fn in os.walk(os.path.join(folder, top)):
            for f in sorted(fn):
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, folder)
                if f.endswith('.shp'):
                    kind, got = core.in_child(storage.read_shp, path)
                    out[rel] = got if kind == 'ok' else 'unreadable'
                elif f.endswith('.csv'):
                    out[rel] = storage.read_bytes(path).decode('utf-8', 'replace')
                else:
                    out[rel] = 'present'
    return out


_refs = {}


def reference(seed):
    """Per script: operation counts and output files of a run in a clean folder."""
    if seed not in _refs:
        out = {}
        root = scratch()
        try:
            for s in SCRIPTS:
                f = os.path.join(root, s)
                os.mkdir(f)
                core.ask(dataset, f, seed)
                r = storage.once(start, (s, f), f, count=True)
                out[s] = (r, outputs(f) if r['outcome'] == 'returned' else None)
                shutil.rmtree(f)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        _refs[seed] = out
    return _refs[seed]


def gen(rng):
    seq = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        s = rng.choice(SCRIPTS[:4] if rng.random() < 0.9 else SCRIPTS)
        k = rng.random()
        if k < 0.6:
            fs = [storage.crash_fault(rng)]
            if fs[0][1] in (shim.OPEN, shim.CLOSE, shim.STAT):      # mostly while it writes
                fs[0][2] = 1 - rng.random() ** 3
        elif k < 0.7:
            fs = [storage.line_fault(rng)]
            fs[0][2] = 1 - 0.02 * rng.random() if rng.random() < 0.6 else rng.random()
        elif k < 0.9:
            fs = [['rel', rng.choice([shim.WRITE, shim.WRITE, shim.MKDIR]), rng.random(), shim.STICKY,
                   rng.choice([E.ENOSPC, E.EIO])]]
        else:
            fs = []
        seq.append({'script': s, 'faults': fs})
    last = rng.sample(SCRIPTS, rng.choice([1, 1, 2, 3]))
    if seq and rng.random() < 0.6 and seq[-1]['script'] not in last:
        last[0] = seq[-1]['script']
    return {'world': 'runners', 'prop': 'C13', 'seq': seq, 'last': last, 'data': rng.randrange(2),
            'renewed': bool(seq) and rng.random() < 0.25}


def run(plan):
    stats = core.Stats()
    ref = reference(plan['data'])
    root = scratch()
    trail = []
    try:
        v = None
        for s in SCRIPTS:
            if ref[s][0]['outcome'] != 'returned' and s in plan['last'] and not v:
                v = {'kind': 'clean run fails', 'what': '%s fails in a clean folder: %s %s' % (
                    s, ref[s][0]['outcome'], ref[s][0]['error'])}
        w = os.path.join(root, 'w')
        os.mkdir(w)
        first = 1 - plan['data'] if plan.get('renewed') else plan['data']
        core.ask(dataset, w, first)
        for e in [] if v else plan['seq']:
            counts = (ref if first == plan['data'] else reference(first))[e['script']][0].get('counts') or [1] * 10
            faults = storage.place(e['faults'], counts)
            r = storage.once(start, (e['script'], w), w, faults)
            storage.tally(stats, faults, r)
            trail.append('%s %s%s' % (e['script'], r['outcome'], ''.join(
                ' (%s)' % shim.name(f) for f, h in zip(faults, r['fired']) if h)))
            stats.hit('operations', n=1)
            if r['outcome'] != 'returned' and not any(r['fired']):
                v = {'kind': 'run fails', 'what': 'after %s: %s' % (trail, r['error'])}
                break
        if plan.get('renewed') and not v:           # the input data is replaced by other
            core.ask(dataset, w, plan['data'])
            stats.hit('faults', 'input data replaced')
        for s in [] if v else plan['last']:
            r = storage.once(start, (s, w), w)
            stats.hit('operations', n=1)
            stats.hit('scripts', s)
            if r['outcome'] != 'returned':
                v = {'kind': 'run fails', 'what': '%s, started after %s, %s: %s' % (s, trail or 'nothing', r['outcome'], r['error'])}
                break
            trail.append(s + ' done')
            got = outputs(w)
            for k, want in ref[s][1].items():
                if k not in got:
                    v = {'kind': 'output missing', 'what': '%s, started after %s, did not write %s' % (s, trail, k)}
                elif not core.same(got[k], want):
                    v = {'kind': 'output differs', 'what': '%s, started after %s, wrote a different %s' % (s, trail, k),
                         'got': clip(got[k], 300), 'expected': clip(want, 300)}
                if v:
                    break
            if v:
                break
        info = {'digest': core.digest(trail), 'path': core.digest(trail), 'states': [core.digest(t) for t in trail]}
        return v, stats, info
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['seq'] = core.ddmin_list(plan['seq'], lambda s: fails(dict(plan, seq=s)), budget)
    plan['last'] = core.ddmin_list(plan['last'], lambda s: bool(s) and fails(dict(plan, last=s)), budget)
    return plan


# ------------------------------------------------------------ C08, whole runs
_complete = {}


def complete_unfaulted(script, seed):
    """Does an undisturbed run write down all it predicted?  None if so."""
    key = (script, seed)
    if key not in _complete:
        root = scratch()
        try:
            core.ask(dataset, root, seed)
            kind, caught = core.in_child(predicted, script, root)
            raw = storage.read_bytes(os.path.join(root, 'results', RESULTS[script]))
            _complete[key] = None
            if kind == 'ok' and len(caught) == 1:
                _complete[key] = storage.csv_complete(raw, caught[0])
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return _complete[key]


def gen_c08(rng):
    fs = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        if k < 0.35:
            fs.append(['end', shim.WRITE, rng.randrange(3), shim.SHORT, rng.randrange(1, 1 << 20)])
        elif k < 0.8:
            fs.append(['end', shim.WRITE, rng.randrange(3), shim.STICKY, rng.choice(storage.HARD)])
        else:
            fs.append(['end', rng.choice([shim.MKDIR, shim.CLOSE]), 0, shim.ERR, rng.choice([E.EIO, E.ENOSPC])])
    return {'world': 'runner8', 'prop': 'C08', 'script': rng.choice(['area', 'area', 'area_2tiles', 'p2p', 'p2p_2tiles']),
            'data': rng.randrange(2), 'faults': fs, 'stale': rng.random() < 0.4}


def run_c08(plan):
    """A whole run: success means that the results table is there."""
    stats = core.Stats()
    s = plan['script']
    r0, out0 = reference(plan['data'])[s]
    info = {'digest': '', 'path': core.digest([s, plan['faults']]), 'states': []}
    if r0['outcome'] != 'returned':
        return None, stats, info        # C13's business
    name = 'results/' + RESULTS[s]
    bad = complete_unfaulted(s, plan['data'])
    if bad:
        return {'kind': 'incomplete', 'what': '%s, undisturbed, ended successfully, but: %s' % (s, bad)}, stats, info
    root = scratch()
    try:
        w = os.path.join(root, 'w')
        os.mkdir(w)
        core.ask(dataset, w, plan['data'])
        if plan['stale']:
            os.mkdir(os.path.join(w, 'results'))
            with open(os.path.join(w, name), 'w') as f:
                f.write('distance_km,x\n' + '1,2\n' * 500)
        faults = []
        for _, kind, back, fault, arg in plan['faults']:
            if r0['counts'][kind]:
                faults.append([kind, max(0, r0['counts'][kind] - 1 - back), fault, arg])
        r = storage.once(start, (s, w), w, faults)
        storage.tally(stats, faults, r)
        stats.hit('operations', n=1)
        stats.hit('scripts', s)
        info['digest'] = core.digest([r['outcome'], r['fired']])
        v = None
        soft = all(f[2] == shim.SHORT for f, h in zip(faults, r['fired']) if h)
        if r['outcome'] == 'returned':
            got = outputs(w).get(name)
            if got != out0.get(name):
                v = {'kind': 'incomplete', 'what': '%s ended successfully, but its results table is %s' % (s, clip(got, 200)),
                     'faults': [shim.name(f) for f in faults]}
        elif soft and r0['counts'][shim.WRITE] < 50:
            v = {'kind': 'not absorbed', 'what': '%s: short writes made the run fail: %s' % (s, r['error'])}
        return v, stats, info
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink_c08(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['faults'] = core.ddmin_list(plan['faults'], lambda f: fails(dict(plan, faults=f)), budget)
    return plan


# --------------------------------------------------- C19, runs on bad inputs
def inputs(script):
    if script == 'pimter':
        return ['data/pimter/%s_dem_%s.csv' % (h, k) for h in PROFILES for k in ('height', 'length')]
    if script.endswith('_2tiles'):
        return ['data/S_AVE_DSM.vrt', 'data/s0.tif', 'data/s1.tif']
    return ['data/ASTGTM2_N51W001_dem.tif']


def gen_inputs(rng):
    s = rng.choice(SCRIPTS + ['pimter'])
    plan = {'world': 'inputs', 'prop': 'C19', 'script': s, 'data': rng.randrange(2), 'faults': [], 'damage': None,
            'before': rng.choice([None, None, 'table', 'run', 'other'])}
    k = rng.random()
    if k < 0.35:
        plan['damage'] = [rng.choice(inputs(s)), rng.choice(['missing', 'missing', 'empty', 'a folder'])]
    if k > 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.25:
                f = ['rel', shim.READ, rng.random(), shim.SHORT, rng.randrange(1, 1 << 20)]
            elif k < 0.7:
                f = ['rel', shim.READ, rng.random(), rng.choice([shim.ERR, shim.STICKY]), rng.choice([E.EIO, E.EIO, E.ESTALE])]
                if s != 'pimter':
                    f[3] = shim.STICKY  # GDAL and a read failing once: finding K3 of C12
            else:
                f = ['rel', shim.OPEN, rng.random(), rng.choice([shim.ERR, shim.STICKY]),
                     rng.choice([E.EIO, E.EMFILE, E.EACCES, E.ENOENT])]
            plan['faults'].append(f)
    return plan


def told(script, folder, note):
    """Run the script; note what its predictions returned."""
    caught = []

    def prof(frame, event, arg):
        if event == 'return' and frame.f_code.co_name == 'run_itmlogic' and arg:
            caught.append(core.plain(arg))
    if script == 'pimter':              # the others write it all down
        sys.setprofile(prof)
    try:
        start(script, folder)
    finally:
        sys.setprofile(None)
    with open(note, 'w') as f:
        json.dump(caught, f)


def notes(path):
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return None


_told = {}


def reference_told(script, seed):
    """What the predictions of an undisturbed run return."""
    if (script, seed) not in _told:
        root = scratch()
        try:
            w = os.path.join(root, 'w')
            os.mkdir(w)
            core.ask(dataset, w, seed)
            storage.once(told, (script, w, os.path.join(root, 'n')), w)
            _told[script, seed] = notes(os.path.join(root, 'n'))
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return _told[script, seed]


def bare(got, want):
    """The features wanted, without their attributes."""
    return isinstance(got, list) and isinstance(want, list) and core.same(got, [[g, c, {}] for g, c, _ in want])


def spoil(path, how):
    os.remove(path)
    if how == 'empty':
        open(path, 'w').close()
    elif how == 'a folder':
        os.mkdir(path)


def run_inputs(plan):
    stats = core.Stats()
    s = plan['script']
    r0, out0 = reference(plan['data'])[s]
    info = {'digest': '', 'path': core.digest([s, plan['faults'], plan['damage'], plan['before']]), 'states': []}
    if r0['outcome'] != 'returned':
        return None, stats, info        # C13's business
    want = reference_told(s, plan['data'])
    root = scratch()
    try:
        w = os.path.join(root, 'w')
        note = os.path.join(root, 'note')
        os.mkdir(w)
        name = RESULTS.get(s)
        if plan['before'] in ('run', 'other'):
            core.ask(dataset, w, plan['data'] if plan['before'] == 'run' else 1 - plan['data'])
            storage.once(start, (s, w), w)
        elif plan['before'] == 'table' and name:
            os.mkdir(os.path.join(w, 'results'))
            with open(os.path.join(w, 'results', name), 'w') as f:
                f.write('distance_km,x\n' + '1,2\n' * 500)
        core.ask(dataset, w, plan['data'])
        old = name and storage.read_bytes(os.path.join(w, 'results', name))
        if plan['damage']:
            spoil(os.path.join(w, plan['damage'][0]), plan['damage'][1])
            stats.hit('faults', 'input ' + plan['damage'][1])
        faults = storage.place(plan['faults'], r0['counts'])
        r = storage.once(told, (s, w, note), w, faults)
        storage.tally(stats, faults, r)
        stats.hit('operations', n=1)
        stats.hit('scripts', s)
        hard = [f for f, h in zip(faults, r['fired']) if h and f[2] != shim.SHORT]
        why = [shim.name(f) for f, h in zip(faults, r['fired']) if h] + (plan['damage'] or [])
        v = None
        if r['outcome'] == 'returned':
            got = outputs(w)
            for k, x in out0.items():
                if hard and bare(got.get(k), x):
                    continue            # finding K2 of C11
                if v is None and not core.same(got.get(k), x):
                    v = {'kind': 'not from its inputs', 'what': '%s ended successfully although %s, but %s is not the one of its '
                         'inputs' % (s, why, k), 'got': clip(got.get(k), 300), 'expected': clip(x, 300)}
            if v is None and not core.same(notes(note), want):
                v = {'kind': 'not from its inputs', 'what': '%s ended successfully although %s, but its predictions are not those '
                     'of its inputs' % (s, why), 'got': clip(notes(note), 300), 'expected': clip(want, 300)}
            if v is None and plan['damage']:
                v = {'kind': 'not from its inputs', 'what': '%s ended successfully although %s' % (s, why)}
        elif not hard and not plan['damage']:
            v = {'kind': 'fails', 'what': '%s failed although its inputs can be read (%s): %s' % (s, why, r['error'])}
        elif name and all(f[0] == shim.READ for f in hard):
            now = storage.read_bytes(os.path.join(w, 'results', name))
            if now != old and (now is None or now.decode('utf-8', 'replace') != out0['results/' + name]):
                v = {'kind': 'earlier table lost', 'what': '%s failed because of %s, and the earlier results table is not there any '
                     'more' % (s, why), 'got': clip(now and now.decode('utf-8', 'replace'), 300)}
        if v is None and (hard or plan['damage']):     # the inputs are back, the run is started again
            if plan['damage'] and plan['damage'][1] == 'a folder':
                os.rmdir(os.path.join(w, plan['damage'][0]))
            if plan['damage']:
                core.ask(dataset, w, plan['data'])
            again = storage.once(told, (s, w, note), w)
            stats.hit('operations', n=1)
            got = outputs(w)
            bad = [k for k, x in out0.items() if not core.same(got.get(k), x)]
            if again['outcome'] != 'returned':
                v = {'kind': 'run again fails', 'what': '%s, started again after it had failed because of %s: %s' % (s, why, again['error'])}
            elif bad:
                v = {'kind': 'run again differs', 'what': '%s, started again after it had failed because of %s, wrote a different %s'
                     % (s, why, bad[0]), 'got': clip(got.get(bad[0]), 300), 'expected': clip(out0[bad[0]], 300)}
            elif not core.same(notes(note), want):
                v = {'kind': 'run again differs', 'what': '%s, started again after it had failed because of %s, predicts something else'
                     % (s, why), 'got': clip(notes(note), 300), 'expected': clip(want, 300)}
        info['digest'] = core.digest([r['outcome'], r['fired']])
        info['states'] = [core.digest([s, x, r['outcome']]) for x in why]
        return v, stats, info
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink_inputs(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['faults'] = core.ddmin_list(plan['faults'], lambda f: fails(dict(plan, faults=f)), budget)
    for k in ('before', 'damage'):
        if plan[k] and fails(dict(plan, **{k: None})):
            plan[k] = None
    return plan
