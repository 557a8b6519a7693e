"""Synthetic elevation models below a scratch directory.

A DEM is described by plain data; build() writes it with rasterio (in a forked
child, before the shim is armed).
"""
import math
import os

NODATA = -9999


def describe(rng, name, kind=None):
    kind = kind or rng.choice(['tif', 'tif', 'vrt'])
    d = {'name': name + ('.vrt' if kind == 'vrt' else '.tif'), 'kind': kind,
         'lon': round(rng.uniform(-20, 20), 2), 'lat': round(rng.uniform(-40, 50), 2),
         'nx': rng.randrange(24, 70), 'ny': rng.randrange(24, 60), 'cell': rng.choice([0.0001, 0.0001, 0.0003, 0.0025]),
         'dtype': rng.choice(['int16', 'int16', 'float32']), 'seed': rng.randrange(1 << 30),
         'style': rng.choice(['hills', 'noise', 'slope', 'sea']), 'nodata': True, 'voids': []}
    return d


def several(rng, n):
    """Descriptions of n DEMs, some of them of the same name and place in different folders."""
    if n == 1 or rng.random() < 0.3:
        return [describe(rng, 'd%d' % i) for i in range(n)]
    d = describe(rng, 'd')
    out = []
    for i in range(n):
        out.append(dict(d, name='v%d/%s' % (i, d['name']), seed=rng.randrange(1 << 30), voids=[]))
    return out


def elevations(d):
    import numpy as np
    r = np.random.RandomState(d['seed'] % (1 << 31))
    y, x = np.mgrid[0:d['ny'], 0:d['nx']].astype(float)
    if d['style'] == 'hills':
        z = np.zeros_like(x)
        for _ in range(6):
            cx, cy, w, a = r.uniform(0, d['nx']), r.uniform(0, d['ny']), r.uniform(3, 15), r.uniform(20, 400)
            z += a * np.exp(-((x - cx) ** 2 + (y - cy) ** 2) / (2 * w * w))
        z += 40
    elif d['style'] == 'noise':
        z = r.uniform(0, 500, x.shape)
    elif d['style'] == 'slope':
        z = 5 + 6 * x + 3 * y
    else:
        z = np.maximum(r.uniform(-60, 80, x.shape), -8)
        z[z < 10] = r.choice([0.0, -3.0])
    z = np.round(z + d.get('lift', 0), 0 if d['dtype'] == 'int16' else 2)
    for j, i, h, w in d['voids']:
        z[j:j + h, i:i + w] = NODATA
    return z.astype(d['dtype'])


def build(folder, d):
    import numpy as np
    import rasterio
    from rasterio.transform import from_origin
    z = elevations(d)
    os.makedirs(folder, exist_ok=True)

    def write(path, block, i0):
        tr = from_origin(d['lon'] + i0 * d['cell'], d['lat'] + d['ny'] * d['cell'], d['cell'], d['cell'])
        kw = {'nodata': NODATA} if d['nodata'] else {}
        tmp = path + '.build'
        with rasterio.open(tmp, 'w', driver='GTiff', height=block.shape[0], width=block.shape[1], count=1,
                           dtype=d['dtype'], crs='EPSG:4326', transform=tr, **kw) as dst:
            dst.write(block, 1)
        os.replace(tmp, path)
        if d.get('mtime'):
            os.utime(path, (d['mtime'], d['mtime']))
    path = os.path.join(folder, d['name'])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if d['kind'] == 'tif':
        write(path, z, 0)
        return [d['name']]
    half = d['nx'] // 2
    parts = []
    for k, (a, b) in enumerate(((0, half), (half, d['nx']))):
        name = d['name'][:-4] + '_%d.tif' % k
        write(os.path.join(folder, name), np.ascontiguousarray(z[:, a:b]), a)
        parts.append((name, a, b))
    gd = {'int16': 'Int16', 'float32': 'Float32'}[d['dtype']]
    xml = ['<VRTDataset rasterXSize="%d" rasterYSize="%d">' % (d['nx'], d['ny']),
           '<SRS>EPSG:4326</SRS>',
           '<GeoTransform>%.12f, %.12f, 0, %.12f, 0, %.12f</GeoTransform>'
           % (d['lon'], d['cell'], d['lat'] + d['ny'] * d['cell'], -d['cell']),
           '<VRTRasterBand dataType="%s" band="1">' % gd]
    if d['nodata']:
        xml.append('<NoDataValue>%d</NoDataValue>' % NODATA)
    for name, a, b in parts:
        xml.append('<SimpleSource><SourceFilename relativeToVRT="1">%s</SourceFilename><SourceBand>1</SourceBand>'
                   '<SrcRect xOff="0" yOff="0" xSize="%d" ySize="%d"/><DstRect xOff="%d" yOff="0" xSize="%d" ySize="%d"/>'
                   '</SimpleSource>' % (os.path.basename(name), b - a, d['ny'], a, b - a, d['ny']))
    xml.append('</VRTRasterBand></VRTDataset>')
    with open(path, 'w') as f:
        f.write('\n'.join(xml))
    if d.get('mtime'):
        os.utime(path, (d['mtime'], d['mtime']))
    return [d['name']] + [p[0] for p in parts]


def at(d, fx, fy):
    """Coordinates of a relative position inside the raster."""
    return [d['lon'] + fx * d['nx'] * d['cell'], d['lat'] + fy * d['ny'] * d['cell']]


def short_line(rng, d, metres=None):
    """A line inside the raster; the number of samples grows with its length."""
    m = metres or rng.choice([8, 15, 30, 60])
    a = at(d, rng.uniform(0.1, 0.85), rng.uniform(0.1, 0.9))
    b = [a[0] + m / 111000.0 / max(0.3, math.cos(math.radians(a[1]))), a[1] + rng.uniform(-1, 1) * m / 300000.0]
    return [a, b]


def circle(rng, d):
    size = min(d['nx'], d['ny']) * d['cell'] * 111000 * 0.7
    return at(d, rng.uniform(0.4, 0.6), rng.uniform(0.4, 0.6)) + [round(size * rng.uniform(0.15, 0.45), 1)]
