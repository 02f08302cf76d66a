"""The order of elements."""
import gen
from common import Family, W
from conv import *

IDS = [0, 1, -1, 2, 7, -7, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32), (1 << 32) + 1, 1 << 40, -(1 << 40), (1 << 53), (1 << 53) + 1, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1]
VERS = [1, 2, 0, -1, 255, 256, 65536, (1 << 31) - 1, -(1 << 31)]


class Order(Family):
    name, spec = 'order', 'TraceOrder'

    def trace(self, sc, ob):
        el = lambda t, i, v: dict(t=t, id=W(i) if t != 's' else W(0), ver=W(v) if t != 's' else W(0))
        els = [el(e['t'], e.get('id', 0), e.get('ver', 1)) for e in sc['els']]
        bad = overall(ob)
        return dict(els=els, rows='sortonly' not in sc, cmp=ob.get('cmp', []), pcmp=ob.get('pcmp', []), eq=ob.get('eq', []), same=ob.get('same', []), kind=ob.get('kind', []),
                    sort=bad if bad != 'ok' else outcome(ob['sort']), sorted=[el(*k) for k in ob.get('sorted', [])], what='comparison of elements')

    @staticmethod
    def mutate(t, rng):
        n = len(t['els'])
        if not n:
            return None
        if t['rows'] and rng.random() < .7:
            i, j = rng.randrange(n), rng.randrange(n)
            k = rng.choice(['cmp', 'pcmp', 'eq', 'same'])
            t[k][i][j] = not t[k][i][j] if k in ('eq', 'same') else (t[k][i][j] + 2) % 3 - 1
        else:
            i = rng.randrange(n)
            j = next((j for j in range(n) if t['sorted'][j] != t['sorted'][i]), None)
            if j is None:
                return None
            t['sorted'][i], t['sorted'][j] = t['sorted'][j], t['sorted'][i]
        return t


def key_el(t, i, v, rng):
    """An element with this key and other content that must not matter."""
    if t == 's':
        return dict(t='s')
    e = gen.element(rng, t, i, v)
    return e


def C11(ctx):
    rng = ctx.rng
    ctx.model('OrderMC')
    ctx.model('WideMC')
    scs = []
    full = [(t, i, v) for t in 'nwr' for i in IDS for v in VERS]
    for _ in range(ctx.scale(60, 600)):
        k = rng.choice([1, 2, 5, 12, 25])
        q = rng.random()
        pool = full if q < .5 else [(t, i, v) for t in 'nwr' for i in rng.sample(IDS, 2) for v in rng.sample(VERS, 2)]
        els = [key_el(*rng.choice(pool), rng) for _ in range(k)]
        els += [dict(t='s')] * rng.choice([0, 0, 1, 2])
        if rng.random() < .5:                        # the same key with other content
            x = rng.choice(els)
            if x['t'] != 's':
                els.append(key_el(x['t'], x['id'], x['ver'], rng))
        rng.shuffle(els)
        scs.append(dict(kind='ord', els=els))
    # every pair of extreme ids, and of extreme versions, in every type
    for t in 'nwr':
        scs.append(dict(kind='ord', els=[key_el(t, i, 1, rng) for i in IDS]))
        scs.append(dict(kind='ord', els=[key_el(t, -3, v, rng) for v in VERS]))
    scs.append(dict(kind='ord', els=[]))
    ctx.check(Order(), scs)
    fam = Order()
    fam.name = 'sort'
    scs = []
    for n in [21, 50, 100, 300] * ctx.scale(8, 60):
        q = rng.random()
        if q < .3:
            els = [key_el(*rng.choice(full), rng) for _ in range(n)]
        elif q < .6:                                 # long lists with many sentinels and equal keys
            els = [key_el(rng.choice('nnwrs'), rng.randint(-5, 5), rng.randint(1, 2), rng) for _ in range(n)]
        else:                                        # sorted runs, as batches concatenated
            els = []
            for _ in range(rng.choice([2, 3, 7])):
                part = sorted({(rng.choice('nwr'), rng.randint(-99, 99), rng.randint(1, 3)) for _ in range(n // 3)}, key=lambda k: (RANK[k[0]], k[1], k[2]))
                els += [key_el(*k, rng) for k in part] + [dict(t='s')] * rng.choice([0, 1])
        for e in els:
            for k in ('tags', 'refs', 'mem'):
                e.pop(k, None)
        scs.append(dict(kind='ord', els=els, sortonly=1))
    ctx.check(fam, scs)
