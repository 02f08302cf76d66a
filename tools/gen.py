"""Scenario data: elements with ordinary and extreme values, in OSM order."""

IDS = [0, 1, 2, 7, 127, 128, 255, 256, 16383, 16384, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 40) + 5, 12_000_000_000,
       (1 << 53) - 1, (1 << 53) + 1, 1 << 60, (1 << 61) + 1]
VERS = [1, 1, 1, 2, 3, 0, 127, 128, 65536, (1 << 31) - 1]
TSS = [0, 1000, 999, 1_234_567_890_000, 1_670_000_000_000, 1_670_000_000_999, 4_294_967_296_000, 9_999_999_999_000]
CSS = [0, 1, 2, 127, 128, (1 << 31) - 1, 1 << 31, 1 << 40, (1 << 60)]
UIDS = [0, 1, 2, 3, 127, 128, 65535, 70000, (1 << 31) - 2]
USERS = ['', 'a', 'bob', 'Ünïcødé 用户', 'user with space', 'x' * 300, '"q\'', 'tab\there', 'line\nbreak', 'back\\slash', 'café', 'café', '😀']
KEYS = ['highway', 'name', 'k', '', 'name:zh', 'a=b', 'ref', 'note', 'K', 'ключ', 'long' * 40]
VALS = ['yes', 'no', '', 'primary', '日本', 'v', 'name', 'highway', 'multi\nline', '\t', '\\N', 'x' * 255, 'é', '1', '0']
ROLES = ['', 'inner', 'outer', 'stop', 'role with space', 'ü', 'name', 'yes']
LATS = [0, 100, -100, 50_000_000_000, -90_000_000_000, 90_000_000_000, 51_507_222_200, -33_868_820_100, 1_000_000_000]
LONS = [0, 100, -100, 180_000_000_000, -180_000_000_000, 179_999_999_900, -179_999_999_900, 127_758_300, 151_209_300_000]


def coord(rng, lat, grid=True):
    r = rng.random()
    if r < .4:
        v = rng.choice(LATS if lat else LONS)
    else:
        lim = 900_000_000 if lat else 1_800_000_000
        v = 100 * rng.randint(-lim, lim)
    if not grid and rng.random() < .3:
        lim = 90_000_000_000 if lat else 180_000_000_000
        v = max(-lim, min(lim, v + rng.randint(-99, 99)))
    return v


def tags(rng, rich=True, dup=True, keys=KEYS, vals=VALS):
    r = rng.random()
    n = 0 if r < .35 else rng.randint(1, 4) if r < .95 else rng.randint(5, 40)
    t = []
    for _ in range(n):
        k = rng.choice(keys) if rng.random() < .7 else f'k{rng.randint(0, 500)}'
        v = rng.choice(vals) if rng.random() < .7 else f'v{rng.randint(0, 500)}'
        t.append([k, v])
        if dup and rng.random() < .06:
            t.append([k, v if rng.random() < .5 else v + '2'])
    if not dup:
        t = [[k, v] for k, v in {k: v for k, v in t}.items()]
    return t


def element(rng, t, id, ver=None, grid=False, neg=True, dup=True):
    e = dict(t=t, id=id, ver=ver if ver is not None else rng.choice(VERS), ts=rng.choice(TSS) if rng.random() < .5 else rng.randint(0, 2_000_000_000) * 1000,
             cs=rng.choice(CSS) if rng.random() < .5 else rng.randint(1, 10**8), uid=rng.choice(UIDS), user=rng.choice(USERS),
             vis=rng.random() < .8, tags=tags(rng, dup=dup))
    if neg and rng.random() < .1:
        e['ts'] = -rng.choice(TSS)
    if t == 'n':
        e['lat'], e['lon'] = coord(rng, True, grid), coord(rng, False, grid)
    elif t == 'w':
        e['refs'] = refs(rng, neg)
    elif t == 'r':
        e['mem'] = [[rng.choice('nwr'), i, rng.choice(ROLES)] for i in refs(rng, neg)]
    return e


def refs(rng, neg=True):
    r = rng.random()
    if r < .15:
        return []
    n = 1 if r < .25 else rng.randint(2, 8) if r < .95 else rng.randint(100, 400)
    a = []
    base = rng.choice(IDS)
    for _ in range(n):
        q = rng.random()
        a.append(base + rng.randint(-3, 3) if q < .5 else rng.choice(IDS) if q < .85 else rng.choice(a) if a else base)
        if neg and rng.random() < .08:
            a[-1] = -a[-1]
    if not neg:
        a = [abs(x) for x in a]
    if n > 2 and rng.random() < .4:
        a[-1] = a[0]
    return a


def ids(rng, n, neg=True):
    s = set()
    while len(s) < n:
        q = rng.random()
        v = rng.choice(IDS) if q < .4 else rng.randint(0, 200) if q < .7 else rng.randint(0, 1 << 40)
        if neg and rng.random() < .15:
            v = -v
        s.add(v)
    return sorted(s)


def elements(rng, n, types=None, versions=False, grid=False, neg=True, dup=True):
    """About n elements in OSM order."""
    types = types if types is not None else rng.choice(['n', 'w', 'r', 'nw', 'nr', 'wr', 'nwr', 'nwr', 'nwr'])
    out = []
    cuts = sorted(rng.randint(0, n) for _ in range(len(types) - 1))
    counts = [b - a for a, b in zip([0] + cuts, cuts + [n])]
    for t, c in zip(types, counts):
        for i in ids(rng, c, neg):
            if versions and rng.random() < .4:
                vs = sorted(rng.sample([1, 2, 3, 4, 9, 70000], rng.randint(1, 4)))
                out += [element(rng, t, i, v, grid, neg, dup) for v in vs]
            else:
                out.append(element(rng, t, i, None, grid, neg, dup))
    return out


def split_calls(rng, es):
    """Group elements into calls: single elements, lists, empty lists."""
    ops = []
    i = 0
    while i < len(es):
        r = rng.random()
        if r < .4:
            ops.append(dict(op='e', e=es[i]))
            i += 1
        elif r < .45:
            ops.append(dict(op='es', es=[]))
        else:
            k = rng.randint(1, 12)
            ops.append(dict(op='es', es=es[i:i + k]))
            i += k
    return ops
