"""Workload parameters: propagation parameters, terrain, distances, deviates.

Swarm style: each run draws its own sizes and mix.  Values lie inside the
documented validity ranges most of the time and outside them now and then.
"""
import math


def pick(rng, *weighted):
    """pick(rng, (w, thunk), ...)"""
    total = sum(w for w, _ in weighted)
    x = rng.random() * total
    for w, f in weighted:
        x -= w
        if x < 0:
            return f()
    return weighted[-1][1]()


def logu(rng, a, b):
    return math.exp(rng.uniform(math.log(a), math.log(b)))


def num(rng, x):
    """A tidy number: often rounded, sometimes an int."""
    k = rng.random()
    if k < 0.3:
        return float('%.3g' % x)
    if k < 0.4 and x >= 2:
        return int(round(x))
    return x


def height(rng):
    return num(rng, pick(rng, (6, lambda: logu(rng, 1, 30)), (3, lambda: logu(rng, 10, 400)),
                         (1, lambda: logu(rng, 300, 3500)), (1, lambda: logu(rng, 0.3, 1.2))))


def ground(rng):
    return rng.choice([(15, 0.005), (15, 0.001), (4, 0.001), (25, 0.02), (81, 5), (81, 0.01)])


def radio(rng):
    """Parameters common to both modes."""
    eps, sgm = ground(rng)
    if rng.random() < 0.12:             # low antennas at the lowest frequencies
        return low(rng)
    return {
        'fmhz': num(rng, pick(rng, (6, lambda: logu(rng, 20, 20000)), (3, lambda: logu(rng, 20, 150)),
                              (1, lambda: logu(rng, 8, 40000)))),
        'hg': [height(rng), height(rng)],
        'ens0': num(rng, pick(rng, (8, lambda: rng.uniform(260, 390)), (1, lambda: rng.uniform(200, 450)),
                              (3, lambda: rng.choice([301, 314])))),
        'zsys': rng.choice([0, 0, 0, 120, 900, 2500]),
        'eps': eps, 'sgm': sgm, 'ipol': rng.randrange(2),
    }


def low(rng):
    """Where the scatter attenuation is close to being inadmissible."""
    eps, sgm = ground(rng)
    return {'fmhz': num(rng, logu(rng, 20, 60)), 'hg': [num(rng, logu(rng, 0.6, 8)), num(rng, logu(rng, 0.6, 8))],
            'ens0': num(rng, rng.uniform(260, 390)), 'zsys': rng.choice([0, 0, 120, 2500]),
            'eps': eps, 'sgm': sgm, 'ipol': rng.randrange(2)}


def klim(rng, invalid=0.06):
    if rng.random() < invalid:
        return rng.choice([8, 12])
    return rng.randrange(1, 8)


def mdvar(rng, invalid=0.05):
    if rng.random() < invalid:
        return rng.choice([4, 7, 15, 26])
    return rng.choice([0, 1, 2, 3]) + rng.choice([0, 0, 10, 10, 20, 30])


def area(rng):
    p = radio(rng)
    p['dh'] = num(rng, pick(rng, (5, lambda: rng.uniform(5, 200)), (2, lambda: rng.uniform(150, 800)),
                            (2, lambda: rng.choice([0, 0, 1, 30, 90]))))
    p['kst'] = [rng.randrange(3), rng.randrange(3)]
    if rng.random() < 0.04:             # as good as 0 and as 2
        p['kst'][rng.randrange(2)] = rng.choice([-1, 3, 7])
    p['klim'] = klim(rng)
    p['mdvar'] = mdvar(rng)
    return p


def terrain(rng, n, step):
    """n elevations, step metres apart."""
    kind = rng.choice(['walk', 'walk', 'ridge', 'two', 'flat', 'sine', 'slope', 'coarse'])
    base = rng.choice([0, 5, 40, 300, 1500, -30, -410])
    rough = logu(rng, 0.2, 60)
    out = []
    z = base
    peak = rng.uniform(0.15, 0.85)
    peak2 = rng.uniform(0.15, 0.85)
    amp = logu(rng, 5, 900)
    for i in range(n):
        x = i / (n - 1)
        if kind == 'walk':
            z = z + rng.gauss(0, rough)
        elif kind == 'ridge':
            z = base + amp * math.exp(-((x - peak) / 0.05) ** 2) + rng.gauss(0, rough * 0.1)
        elif kind == 'two':
            z = base + amp * (math.exp(-((x - peak) / 0.04) ** 2) +
                              math.exp(-((x - peak2) / 0.04) ** 2)) + rng.gauss(0, 0.5)
        elif kind == 'sine':
            z = base + amp * 0.3 * math.sin(12 * x + peak * 6) + rng.gauss(0, 1)
        elif kind == 'slope':
            z = base + amp * x + rng.gauss(0, rough * 0.2)
        elif kind == 'coarse':
            z = base + 15 * rng.randrange(0, 9)
        out.append(round(z, 2) if kind != 'coarse' else z)
    return out


def points(rng, usual=60):
    """Number of samples of a profile: the shortest, usual and long ones (a sampled path has up to 600)."""
    return pick(rng, (3, lambda: rng.choice([3, 4, 5, 8])), (12, lambda: rng.randrange(6, usual)),
                (1, lambda: rng.choice([rng.randrange(100, 280), rng.randrange(280, 605)])))


def surplus(rng):
    """Values beyond the end of a profile, as given by the count at its head."""
    return [rng.choice([0, 55, 300.5]) for _ in range(rng.choice([1, 2, 5]))] if rng.random() < 0.04 else []


def p2p(rng, max_points=60):
    p = radio(rng)
    n = points(rng, max_points)
    step = num(rng, pick(rng, (4, lambda: logu(rng, 100, 2000)), (2, lambda: logu(rng, 500, 12000)),
                         (1, lambda: logu(rng, 10, 100))))
    p['pfl'] = [n - 1, step] + terrain(rng, n, step) + surplus(rng)
    p['klim'] = klim(rng)
    p['mdvar'] = mdvar(rng)
    return p


def gme_of(p):
    ens = p['ens0'] * math.exp(-p['zsys'] / 9460) if p['zsys'] else p['ens0']
    return 157e-9 * (1 - 0.04665 * math.exp(ens / 179.3))


def los_range(p):
    """Rough radius of the line-of-sight range of an area session."""
    g = gme_of(p)
    if g <= 0:
        return 2e4
    return sum(math.sqrt(2 * (h + 3) / g) for h in p['hg'])


def distance(rng, p):
    los = los_range(p)
    return num(rng, pick(
        rng, (5, lambda: los * rng.uniform(0.03, 0.95)),
        (2, lambda: los * rng.uniform(0.9, 1.6)),
        (3, lambda: los + logu(rng, 2e3, 2e5)),
        (4, lambda: los + rng.uniform(1e5, 9e5)),
        (1, lambda: logu(rng, 500, 2.5e6)),
        (2, lambda: 1000.0 * rng.randrange(1, 600)),
        (0.2, lambda: 0)))


def near(rng, x):
    """A value close to, but not, x."""
    return rng.choice([x * (1 + 1e-6), x + 0.4, x + 1, x * 1.001, x - 0.25, x * (1 - 1e-4)])


def deviate(rng):
    return pick(rng, (5, lambda: round(rng.gauss(0, 1.2), 4)), (2, lambda: rng.choice([0, 0.0])),
                (2, lambda: rng.choice([1.2817, -1.2817, 2.3268, -2.3268])),
                (1, lambda: rng.choice([3.2, -3.5, 4.7534, -4.7534, 3.1])))


def twist(rng, z, lo=0):
    """Another list which is easily mistaken for z[lo:]: same length and often
    the same sum, extremes or ends."""
    z = list(z)
    n = len(z) - lo
    if n < 2:
        return z
    k = rng.choice(['reverse', 'swap', 'balance', 'shuffle', 'tiny', 'middle', 'one', 'rotate'])
    if k == 'reverse':
        z[lo:] = z[lo:][::-1]
    elif k == 'rotate':
        z[lo:] = z[lo + 1:] + z[lo:lo + 1]
    elif k in ('swap', 'balance'):
        i, j = rng.sample(range(lo, len(z)), 2)
        if k == 'swap':
            z[i], z[j] = z[j], z[i]
        else:
            x = rng.choice([1, 7, 40])
            z[i], z[j] = z[i] + x, z[j] - x
    elif k == 'shuffle':
        mid = z[lo + 1:-1]
        rng.shuffle(mid)
        z[lo + 1:-1] = mid
    elif k == 'tiny':
        i = rng.randrange(lo, len(z))
        z[i] = z[i] + rng.choice([0.004, 0.04, -0.3])
    elif k == 'middle' and n > 2:
        i = lo + n // 2
        z[i] = z[i] + rng.choice([3, 50, -20])
    else:
        i = rng.randrange(lo, len(z))
        z[i] = z[i] + rng.choice([3, 50, -20])
    return [round(x, 4) if isinstance(x, float) else x for x in z]


def hair(rng, x):
    """Different from x, but equal to it when rounded."""
    return x * (1 + rng.choice([1e-5, -1e-5, 3e-4, 1e-7, -2e-3])) if x else x


def perturb(rng, p):
    """Change one parameter of a job, slightly or altogether."""
    q = {k: (list(v) if isinstance(v, list) else v) for k, v in p.items()}
    t = rng.random()
    if t < 0.25:
        if 'pfl' in q and rng.random() < 0.6:
            q['pfl'] = twist(rng, q['pfl'], 2)
        elif rng.random() < 0.3:
            q['hg'] = q['hg'][::-1]
        else:
            k = rng.choice([k for k in ('fmhz', 'ens0', 'dh', 'hg', 'step') if k in q or (k == 'step' and 'pfl' in q)])
            if k == 'hg':
                i = rng.randrange(2)
                q['hg'][i] = hair(rng, q['hg'][i])
            elif k == 'step':
                q['pfl'][1] = hair(rng, q['pfl'][1])
            else:
                q[k] = hair(rng, q[k])
        return q
    keys = [k for k in ('fmhz', 'ens0', 'zsys', 'eps', 'sgm', 'ipol', 'dh', 'klim', 'mdvar', 'hg0', 'hg1',
                        'kst', 'pfl', 'step') if k in q or k in ('hg0', 'hg1') or (k == 'step' and 'pfl' in q)]
    k = rng.choice(keys)
    if k in ('hg0', 'hg1'):
        i = int(k[2])
        q['hg'][i] = max(0.3, rng.choice([q['hg'][i] + 0.5, q['hg'][i] * 1.07, q['hg'][i] + 0.01, height(rng)]))
    elif k == 'fmhz':
        q[k] = rng.choice([q[k] * 1.1, q[k] + 0.1, q[k] + 1])
    elif k == 'ens0':
        q[k] = q[k] + rng.choice([0.5, 1, 10, -7])
    elif k == 'zsys':
        q[k] = rng.choice([0, 60, 500, 1400])
    elif k in ('eps', 'sgm'):
        q['eps'], q['sgm'] = ground(rng)
    elif k == 'ipol':
        q[k] = 1 - q[k]
    elif k == 'dh':
        q[k] = max(0, q[k] + rng.choice([0.3, 1, 5, -2, 40]))
    elif k == 'klim':
        q[k] = klim(rng)
    elif k == 'mdvar':
        q[k] = mdvar(rng)
    elif k == 'kst':
        q[k] = [rng.randrange(3), rng.randrange(3)]
    elif k == 'pfl':
        i = rng.randrange(2, len(q['pfl']))
        q['pfl'][i] = round(q['pfl'][i] + rng.choice([0.3, 2, 25, -15, 120]), 2)
    elif k == 'step':
        q['pfl'][1] = q['pfl'][1] * rng.choice([1.01, 1.5, 0.8])
    return q
