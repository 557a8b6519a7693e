"""The elevation world (C12): terrain queries on elevation files that are read
with faults, damaged, replaced, or contain void cells."""
import copy
import errno
import json
import math
import os
import select
import shutil
import signal

from . import core, dem, jobs, shim
from .core import same
from .parallel import clip, scratch

E = errno


# ---------------------------------------------------------- independent oracle
def near_cells(d, z, x, y):
    """Valid cells and number of void ones which may contribute to a value at
    (x, y): the four whose centres surround it (nine if that is a close call).
    Third: whether (x, y) lies well inside a void cell."""
    fx = (x - d['lon']) / d['cell']
    fy = (d['lat'] + d['ny'] * d['cell'] - y) / d['cell']
    i, j = int(math.floor(fx)), int(math.floor(fy))

    def span(f, k):
        part = f - k
        if abs(part - 0.5) < 0.02 or part < 0.02 or part > 0.98:
            return (k - 1, k, k + 1)
        return (k - 1, k) if part < 0.5 else (k, k + 1)
    good, void = [], 0
    ci, cj = span(fx, i), span(fy, j)
    for jj in cj:
        for ii in ci:
            if 0 <= ii < d['nx'] and 0 <= jj < d['ny']:
                v = float(z[jj][ii])
                if v == dem.NODATA:
                    void += 1
                else:
                    good.append(v)
            else:
                void += 1
    inside = (len(ci) == len(cj) == 2 and 0 <= i < d['nx'] and 0 <= j < d['ny'] and float(z[j][i]) == dem.NODATA)
    return good, void, inside


def circle_cells(d, z, lon, lat, r):
    """Values of the cells inside the circle: surely inside, and perhaps."""
    import pyproj
    import numpy as np
    geod = pyproj.Geod(ellps='WGS84')
    xs = d['lon'] + (np.arange(d['nx']) + 0.5) * d['cell']
    ys = d['lat'] + d['ny'] * d['cell'] - (np.arange(d['ny']) + 0.5) * d['cell']
    gx, gy = np.meshgrid(xs, ys)
    _, _, dist = geod.inv(np.full(gx.shape, lon), np.full(gx.shape, lat), gx, gy)
    return dist


def area_bounds(d, z, lon, lat, r):
    """(lowest, highest) irregularity consistent with the stored cells."""
    import numpy as np
    dist = circle_cells(d, z, lon, lat, r)
    z = np.asarray(z, float)
    valid = z != dem.NODATA
    out = []
    # the polygon approximating the circle lies between these two radii
    for k in (0.975, 0.985, 0.9975, 1.0, 1.004):
        v = z[(dist <= r * k) & valid]
        if v.size:
            a, b = np.percentile(v, [90, 10])
            out.append(a - b)
    return out, int(((dist <= r * 0.97) & valid).sum()), int(((dist <= r * 1.02) & valid).sum())


def judge_p2p(d, z, line, res, damaged):
    """None or what is wrong with a returned profile."""
    prof, km, pts = res
    if len(prof) != len(pts) or len(prof) < 2:
        return '%d elevations for %d points' % (len(prof), len(pts))
    for k, (v, p) in enumerate(zip(prof, pts)):
        if v is None or not isinstance(v, (int, float)) or math.isnan(v):
            return 'sample %d has no elevation (%r)' % (k, v)
        if not same(v, p['properties']['elevation']):
            return 'sample %d: profile says %r, point says %r' % (k, v, p['properties']['elevation'])
        x, y = p['geometry']['coordinates'][:2]
        good, void, inside = near_cells(d, z, x, y)
        if inside:
            return 'sample %d in a void cell has elevation %r' % (k, v)
        if not good:
            return 'sample %d at void cells only has elevation %r' % (k, v)
        if not min(good) - 1e-6 <= v <= max(good) + 1e-6:
            return 'sample %d: elevation %r, but the stored cells around it hold %r to %r' % (k, v, min(good), max(good))
    return None


def judge_area(d, z, args, res):
    lon, lat, r = args
    vals, sure, perhaps = area_bounds(d, z, lon, lat, r)
    if perhaps == 0:
        return 'irregularity %r of an area without a single valid cell' % res
    if sure < 30:
        lo, hi = 0, float('inf')        # too few cells for the bounds below
        import numpy as np
        zz = np.asarray(z, float)
        dist = circle_cells(d, z, lon, lat, r)
        v = zz[(dist <= r * 1.02) & (zz != dem.NODATA)]
        hi = v.max() - v.min()
    else:
        lo, hi = min(vals), max(vals)
        slack = max(2.0, 0.06 * hi)
        lo, hi = lo - slack, hi + slack
    if not lo - 1 <= res <= hi + 1:
        return 'irregularity %r, but the stored cells give %.1f to %.1f' % (res, lo, hi)
    return None


# ------------------------------------------------------------------ planning
def gen(rng):
    n = rng.choice([1, 1, 2])
    ds = dem.several(rng, n)
    for d in ds:
        if rng.random() < 0.4:
            voids(rng, d)
        if rng.random() < 0.3:
            d['mtime'] = 1500000000
    steps = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        i = rng.randrange(n)
        d = ds[i]
        k = rng.random()
        if steps and k < 0.3:
            what = rng.choice(['replace', 'replace', 'replace', 'truncate', 'remove', 'restore', 'void'])
            st = {'do': what, 'dem': i}
            if what == 'replace':
                st['lift'] = rng.choice([500, 1500, -700])
                st['seed'] = rng.randrange(1 << 30)
            elif what == 'void':
                e = dict(d, voids=[])
                voids(rng, e)
                st['voids'] = e['voids']
            elif what in ('truncate', 'remove'):
                st['part'] = rng.randrange(2)
                st['frac'] = rng.uniform(0.02, 0.9)
            steps.append(st)
            if rng.random() < 0.8:      # ask the same question again
                prev = [s for s in steps if s['do'] in ('p2p', 'area') and s['dem'] == i]
                if prev:
                    q = copy.deepcopy(rng.choice(prev))
                    q['faults'] = []
                    steps.append(q)
            continue
        prev = [s for s in steps if s['do'] in ('p2p', 'area') and s['dem'] == i]
        if prev and rng.random() < 0.4:                         # nearly the same question
            st = beside(rng, d, rng.choice(prev))
        elif rng.random() < 0.6:
            st = {'do': 'p2p', 'dem': i, 'line': dem.short_line(rng, d, rng.choice([5, 10, 20, 40]))}
            if d['kind'] == 'vrt' and rng.random() < 0.4:       # across the seam of the tiles
                x = d['lon'] + (d['nx'] // 2) * d['cell']
                st['line'] = [[x - 6e-5, st['line'][0][1]], [x + 6e-5, st['line'][1][1]]]
            if d['voids'] and rng.random() < 0.5:               # onto a void
                j, ii, h, w = d['voids'][0]
                x = d['lon'] + (ii + w / 2.0) * d['cell']
                y = d['lat'] + (d['ny'] - j - h / 2.0) * d['cell']
                st['line'] = [[x - 5e-5, y], [x + 5e-5, y + 1e-5]]
                if rng.random() < 0.6 and d['cell'] < 0.001:    # into it, out of it, or across a corner of it
                    away = (w / 2.0 + rng.choice([0.3, 1.2])) * d['cell']
                    a, b = [x - away, y + rng.uniform(-0.1, 0.1) * d['cell']], [x + rng.uniform(-0.2, 0.2) * d['cell'], y]
                    if rng.random() < 0.3:
                        b = [x + away, y]
                    st['line'] = [a, b] if rng.random() < 0.7 else [b, a]
        else:
            st = {'do': 'area', 'dem': i, 'circle': dem.circle(rng, d)}
        st['faults'] = []
        if rng.random() < 0.55:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.random()
                if k < 0.3:
                    f = ['rel', shim.READ, rng.random(), shim.SHORT, rng.randrange(1, 1 << 20)]
                elif k < 0.4:
                    f = ['rel', shim.READ, rng.random(), shim.ERR, rng.choice([E.EIO, E.EIO, E.ESTALE])]
                elif k < 0.65:
                    f = ['rel', shim.READ, rng.random(), shim.STICKY, rng.choice([E.EIO, E.EIO, E.ESTALE])]
                else:
                    f = ['rel', shim.OPEN, rng.random(), rng.choice([shim.ERR, shim.STICKY]),
                         rng.choice([E.EIO, E.EMFILE, E.EACCES, E.ENOENT])]
                st['faults'].append(f)
        steps.append(st)
    if not any(s['do'] in ('p2p', 'area') for s in steps):
        steps.append({'do': 'area', 'dem': 0, 'circle': dem.circle(rng, ds[0]), 'faults': []})
    return {'world': 'elev', 'prop': 'C12', 'dems': ds, 'steps': steps}


def beside(rng, d, st):
    """A query next to another one."""
    st = {k: copy.deepcopy(st[k]) for k in ('do', 'dem', 'line', 'circle') if k in st}
    step = rng.choice([0.01, 0.5, 2, 5]) * d['cell'] * rng.choice([-1, 1])
    if st['do'] == 'area':
        c = st['circle']
        if rng.random() < 0.4:
            c[2] = max(c[2] * rng.choice([0.6, 0.97, 1.0003, 1.2]), 1.5 * d['cell'] * 111000)
        else:
            c[rng.randrange(2)] += step
    elif rng.random() < 0.5:            # another line of the same length
        k = rng.randrange(2)
        for p in st['line']:
            p[k] += step
    elif rng.random() < 0.3:
        st['line'].reverse()
    else:
        st['line'][rng.randrange(2)][1] += step / max(1, abs(step) / 2e-4)
    return st


def gen_known(rng):
    """The history of finding K1."""
    d = {'name': 'd0.vrt', 'kind': 'vrt', 'lon': 5.61, 'lat': 46.2, 'nx': 30, 'ny': 30, 'cell': 0.0025,
         'dtype': 'int16', 'seed': 1, 'style': 'slope', 'nodata': True, 'voids': []}
    q = {'do': 'area', 'dem': 0, 'circle': dem.at(d, 0.5, 0.5) + [2000.0], 'faults': []}
    return {'world': 'elev', 'prop': 'C12', 'dems': [d], 'steps': [
        {'do': 'remove', 'dem': 0, 'part': 1, 'frac': 0.5}, copy.deepcopy(q), {'do': 'restore', 'dem': 0}, q]}


def gen_known_read(rng):
    """The history of finding K3: one strip of the file cannot be read, once."""
    d = {'name': 'd0.tif', 'kind': 'tif', 'lon': -4.24, 'lat': 40.87, 'nx': 50, 'ny': 47, 'cell': 0.0003, 'dtype': 'float32',
         'seed': 861754307, 'style': 'slope', 'nodata': True, 'voids': []}
    a = dem.at(d, 0.5, 0.5)
    line = [a, [a[0] + 0.0002, a[1] + 0.0001]]
    return {'world': 'elev', 'prop': 'C12', 'dems': [d], 'steps': [
        {'do': 'p2p', 'dem': 0, 'line': line, 'faults': [['rel', shim.READ, n / 120, shim.ERR, E.EIO]]}
        for n in (7, 13, 29, 45, 50, 61)]}


def voids(rng, d):
    if rng.random() < 0.2:              # little more than a strip was surveyed
        part = rng.uniform(0.6, 0.92)
        d['voids'].append(rng.choice([[0, 0, d['ny'], int(part * d['nx'])], [0, 0, int(part * d['ny']), d['nx']]]))
        return
    for _ in range(rng.choice([1, 1, 2, 3])):
        h, w = rng.randrange(1, 7), rng.randrange(1, 7)
        d['voids'].append([rng.randrange(0, d['ny'] - h), rng.randrange(0, d['nx'] - w), h, w])


# ------------------------------------------------------------------- running
def ask_query(st, d, folder):
    jobs.DEM_DIR[0] = folder
    if st['do'] == 'p2p':
        return jobs.call({'fn': 'terrain_p2p'}, [d['name'], st['line']])
    return jobs.call({'fn': 'terrain_area'}, [d['name']] + list(st['circle']))


def query(st, d, folder, faults):
    shim.arm(folder, faults)
    try:
        try:
            out = {'r': ask_query(st, d, folder)}
        except Exception as error:
            out = {'raised': '%s: %s' % (type(error).__name__, str(error)[:150])}
    finally:
        out_counts = shim.counts()
        fired = shim.fired(faults)
        shim.disarm()
    out['counts'] = out_counts
    out['fired'] = fired
    return out


def raw(st, d, folder):
    """Control without any code of the repository: what rasterio and rasterstats
    themselves, in this process, give for the cells around the query."""
    import rasterio
    import rasterstats
    from shapely.geometry import Point
    path = os.path.join(folder, d['name'])

    def cells():
        with rasterio.open(path) as src:
            return src.read(1).tolist()

    def points():
        return rasterstats.point_query([Point(*p) for p in walk(st['line'], 12)], path)

    def zone():
        x, y, r = st['circle']
        return rasterstats.zonal_stats([Point(x, y).buffer(r / 111000.0)], path, stats=['count', 'min', 'max'], nodata=-9999)
    out = []
    for f in (points,) * 3 if st['do'] == 'p2p' else (zone,) * 3 + (cells,):
        try:
            out.append(core.digest(f()))
        except Exception as error:
            out.append(type(error).__name__)
    return {'raw': out}


def plain_query(st, points, path, folder, faults):
    """The query without any code of the repository."""
    import numpy as np
    import pyproj
    import rasterstats
    from shapely.geometry import Point
    from shapely.ops import transform
    shim.arm(folder, faults)
    try:
        try:
            if st['do'] == 'p2p':
                return {'r': core.plain(rasterstats.point_query([Point(*p) for p in points], path))}
            lon, lat, r = st['circle']
            t = pyproj.Transformer.from_crs('+proj=aeqd +lat_0=%s +lon_0=%s +x_0=0 +y_0=0' % (lat, lon), 'epsg:4326', always_xy=True)
            zone = transform(t.transform, Point(0, 0).buffer(r))

            def spread(x):
                a, b = np.percentile(np.ma.compressed(x), [90, 10])
                return int(round(a - b, 0))
            return {'r': next(rasterstats.gen_zonal_stats([zone], path, add_stats={'spread': spread}, nodata=-9999))['spread']}
        except Exception as error:
            return {'raised': type(error).__name__}
    finally:
        shim.disarm()


def gdal_too(st, d, z, folder, clean, faults, got):
    """Finding K3: do rasterio and rasterstats by themselves take a read failing once for success and
    give the same?"""
    hits = [f for f, h in zip(faults, got['fired']) if h]
    if not core.known('C12', 'K3') or not any(f[:1] + f[2:3] == [shim.READ, shim.ERR] for f in hits) or any(
            f[0] != shim.READ or f[2] not in (shim.ERR, shim.SHORT) for f in hits):
        return False
    p2p = st['do'] == 'p2p'
    points = [p['geometry']['coordinates'][:2] for p in clean['r'][2]] if p2p else []
    for off in (0, -1, 1, -2, 2, -3, 3, -4, 4, -5, 5, -6, 6):
        fs = [[f[0], max(0, f[1] + off)] + f[2:] for f in hits]
        c = core.ask(plain_query, st, points, os.path.join(folder, d['name']), folder, fs)
        if 'r' in c and same(c['r'], got['r'][0] if p2p else got['r']):
            return True
    # the code may read in another order: then what it gives must be backed by the stored cells around, and the
    # same must happen without it at some other read
    bad = judge_p2p(d, z, st['line'], got['r'], False) if p2p else core.ask(judge_area, d, z, st['circle'], got['r'])
    if bad is None:
        want = clean['r'][0] if p2p else clean['r']
        for n in range(100):
            c = core.ask(plain_query, st, points, os.path.join(folder, d['name']), folder, [[shim.READ, n, shim.ERR, E.EIO]])
            if 'r' in c and not same(c['r'], want):
                return True
    return False


class Server:
    """One process which answers all queries of a plan, as a user's would."""

    def __init__(self, folder):
        self.r, cw = os.pipe()
        cr, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 97
            try:
                os.close(self.r)
                os.close(self.w)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                f = os.fdopen(cr, 'r')
                for ln in f:
                    st, d, faults = json.loads(ln)
                    if st['do'] == 'raw':
                        out = raw(st['of'], d, folder)
                    elif st['do'] == 'plain':
                        out = plain_query(st['of'], st['points'], os.path.join(folder, d['name']), folder, faults)
                    else:
                        out = query(st, d, folder, faults)
                    data = (json.dumps(out) + '\n').encode()
                    while data:
                        data = data[os.write(cw, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(cr)
        os.close(cw)
        self.buf = b''

    def ask(self, *x):
        os.write(self.w, (json.dumps(x) + '\n').encode())
        while b'\n' not in self.buf:
            if not select.select([self.r], [], [], 100)[0]:
                raise core.Stuck('terrain query does not come back')
            part = os.read(self.r, 1 << 16)
            if not part:
                return {'raised': 'the process died', 'died': True}
            self.buf += part
        ln, self.buf = self.buf.split(b'\n', 1)
        return json.loads(ln)

    def close(self):
        os.close(self.w)
        os.close(self.r)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


def change(folder, ds, st, files):
    """Something happens to the elevation files."""
    i = st['dem']
    d = ds[i]
    if st['do'] in ('replace', 'void'):
        if st['do'] == 'replace':
            d['lift'] = d.get('lift', 0) + st['lift']
            d['seed'] = st['seed']
        else:
            d['voids'] = st['voids']
        core.ask(dem.build, folder, d)
        return 'elevation file replaced'
    if st['do'] == 'restore':
        core.ask(dem.build, folder, d)
        return None
    tifs = [f for f in files[i] if f.endswith('.tif')]
    path = os.path.join(folder, tifs[st['part'] % len(tifs)])
    if os.path.exists(path):
        if st['do'] == 'remove':
            os.remove(path)
        else:
            # somewhere in the cells, or the whole file
            size = os.path.getsize(path)
            cells = d['ny'] * (d['nx'] if d['kind'] == 'tif' else d['nx'] // 2) * (2 if d['dtype'] == 'int16' else 4)
            os.truncate(path, 0 if st['frac'] < 0.1 else max(0, size - int(cells * st['frac'])))
    return 'elevation file ' + ('removed' if st['do'] == 'remove' else 'truncated')


def remembers(plan, upto, asked, tries=10):
    """Finding K1 by a whole history without any code of the repository: the same changes of the files and
    the same queries, with the same faults, made with rasterio and rasterstats alone in one process.  Whether
    GDAL remembers a failure can depend on where its handles lie in memory: hence several attempts."""
    for _ in range(tries):
        root = scratch()
        srv = None
        try:
            folder = os.path.join(root, 'dem')
            os.mkdir(folder)
            ds = copy.deepcopy(plan['dems'])
            files = [core.ask(dem.build, folder, d) for d in ds]
            srv = Server(folder)
            for si, st in enumerate(plan['steps'][:upto + 1]):
                d = ds[st['dem']]
                if st['do'] not in ('p2p', 'area'):
                    change(folder, ds, st, files)
                elif si in asked:
                    points, faults = asked[si]
                    for _ in range(3 if si == upto else 1):
                        got = srv.ask({'do': 'plain', 'of': st, 'points': points}, d, faults)
                        if got.get('died'):
                            break
                        if si == upto and got != core.ask(plain_query, st, points, os.path.join(folder, d['name']), folder, []):
                            return True
        finally:
            if srv:
                srv.close()
            shutil.rmtree(root, ignore_errors=True)
    return False


def run(plan):
    from .storage import place
    stats = core.Stats()
    root = scratch()
    srv = None
    log = []
    try:
        folder = os.path.join(root, 'dem')
        os.mkdir(folder)
        ds = copy.deepcopy(plan['dems'])
        files = [core.ask(dem.build, folder, d) for d in ds]
        zs = [core.ask(_z, d) for d in ds]
        damaged = [False] * len(ds)
        tainted = {}
        asked = {}
        srv = Server(folder)
        v = None
        for si, st in enumerate(plan['steps']):
            i = st['dem']
            d = ds[i]
            if st['do'] not in ('p2p', 'area'):
                changed = change(folder, ds, st, files)
                damaged[i] = st['do'] in ('truncate', 'remove')
                if st['do'] in ('replace', 'void'):
                    zs[i] = core.ask(_z, d)
                if changed:
                    stats.hit('faults', changed)
                continue
            # what a fresh process gets from these files, undisturbed
            clean = core.in_child(query, st, d, folder, [])
            clean = clean[1] if clean[0] == 'ok' else {'raised': 'died', 'counts': [0] * 10}
            stats.hit('operations')
            stats.hit('queries', st['do'])
            z = zs[i]
            near_void = damaged[i]
            if st['do'] == 'p2p':
                for p in walk(st['line']):
                    if near_cells(d, z, *p)[1]:
                        near_void = True
                if 'r' in clean:
                    bad = judge_p2p(d, z, st['line'], clean['r'], damaged[i])
                    if bad:
                        v = fail(si, st, 'wrong elevations', bad, damaged[i])
                        break
            else:
                if core.ask(area_bounds, d, z, *st['circle'])[1] == 0:
                    near_void = True
                if 'r' in clean:
                    bad = core.ask(judge_area, d, z, st['circle'], clean['r'])
                    if bad:
                        v = fail(si, st, 'wrong irregularity', bad, damaged[i])
                        break
            if 'raised' in clean and not near_void:
                v = fail(si, st, 'fails without a reason', clean['raised'], False)
                break
            if near_void:
                stats.hit('probes', 'damaged file or void cells in reach: ' + ('failed' if 'raised' in clean else 'answered'))
            faults = place(st.get('faults', []), clean['counts'])
            got = srv.ask(st, d, faults)
            asked[si] = [[p['geometry']['coordinates'][:2] for p in clean['r'][2]] if 'r' in clean and st['do'] == 'p2p' else
                         list(walk(st['line'], 12)) if st['do'] == 'p2p' else [], faults]
            # from here on GDAL may remember something, or not: no part of the record
            log.append([st['do'], '', []] if tainted.get(i) else
                       [st['do'], 'raised' if 'raised' in got else core.digest(got['r']), got.get('fired')])
            if got.get('died'):
                srv.close()
                srv = Server(folder)
                tainted = {}
                asked = {}
                got['fired'] = [True] * len(faults)
            hard = False
            for f, hit in zip(faults, got['fired']):
                if hit:
                    stats.hit('faults', shim.name(f))
                    hard = hard or f[2] != shim.SHORT
            if 'raised' in got and (hard or damaged[i]):
                tainted[i] = True
            if 'r' in got and 'r' in clean and same(got['r'], clean['r']):
                continue
            if 'raised' in got and ('raised' in clean or hard):
                continue
            # GDAL's memory of a tile which it failed to open before (finding K1)
            if tainted.get(i) and not got.get('died'):
                if core.known('C12', 'K1') and (srv.ask({'do': 'raw', 'of': st}, d, []) != core.ask(raw, st, d, folder) or
                                                remembers(plan, si, asked)):
                    stats.hit('known', 'K1')
                    srv.close()
                    srv = Server(folder)
                    tainted = {}
                    asked = {}
                    continue
            if 'r' in got and 'r' in clean and gdal_too(st, d, z, folder, clean, faults, got):
                stats.hit('known', 'K3')
                continue
            what = ('the call failed: %s' % got['raised']) if 'raised' in got else 'got %s' % clip(got['r'], 300)
            v = fail(si, st, 'differs from the files as they are now', '%s; a fresh process, undisturbed: %s; faults: %s' % (
                what, clip(clean.get('r', clean.get('raised')), 300),
                [shim.name(f) for f, h in zip(faults, got['fired']) if h]), damaged[i])
            break
        info = {'digest': core.digest(log), 'path': core.digest([[a, c] for a, _, c in log] + [s['do'] for s in plan['steps']]),
                'states': [core.digest([s['do'], s.get('faults') and [[f[1], f[3], f[4] if f[3] != shim.SHORT else 0,
                                                                        int(f[2] * 6)] for f in s['faults']]])
                           for s in plan['steps']]}
        return v, stats, info
    finally:
        if srv:
            srv.close()
        shutil.rmtree(root, ignore_errors=True)


def walk(line, n=60):
    (x0, y0), (x1, y1) = line
    for k in range(n + 1):
        yield x0 + (x1 - x0) * k / n, y0 + (y1 - y0) * k / n


def _z(d):
    return dem.elevations(d).tolist()


def fail(si, st, kind, what, damaged):
    return {'kind': kind, 'what': 'step %d (%s%s): %s: %s' % (si, st['do'], ', damaged file' if damaged else '', kind, what)}


def shrink(plan, fails, budget):
    plan = copy.deepcopy(plan)
    plan['steps'] = core.ddmin_list(plan['steps'], lambda s: bool(s) and fails(dict(plan, steps=s)), budget)
    for i, s in enumerate(plan['steps']):
        if s.get('faults'):
            def wf(fs):
                q = copy.deepcopy(plan)
                q['steps'][i]['faults'] = fs
                return q
            plan['steps'][i]['faults'] = core.ddmin_list(s['faults'], lambda fs: fails(wf(fs)), budget)
    return plan
