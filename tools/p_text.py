"""Values of the model as texts."""
from common import Family, W
from conv import *


def by(s):
    return list(s.encode() if isinstance(s, str) else s)


class Texts(Family):
    spec = 'TraceText'

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        ev = []
        bad = overall(ob)
        for op, o in zip(sc['ops'], ob.get('out', [])):
            r = outcome(o['r'])
            if 'box' in op:
                ev.append(dict(k='box', text=list(bytes.fromhex(op['box'])), r=r, box=[W(x) for x in o.get('box', [])], shown=by(o.get('shown', ''))))
            elif 'show' in op:
                ev.append(dict(k='show', box=[W(x) for x in op['show']], shown=by(o.get('shown', ''))))
            elif 'time' in op:
                ev.append(dict(k='time', us=W(op['time']), r=r, text=by(o.get('text', ''))))
            else:
                a, b = o.get('deg7', [1 << 62, 1 << 62])
                ev.append(dict(k='deg7', lat=W(op['deg7'][0]), lon=W(op['deg7'][1]), lat7=W(a), lon7=W(b)))
        if bad != 'ok':
            ev.append(dict(k='box', text=[], r=bad, box=[], shown=[]))
        return dict(ev=ev, what='values as texts')

    def explain(self, trace, pos):
        e = dict(trace['ev'][pos])
        for k in ('text', 'shown'):
            if k in e:
                e[k] = bytes(e[k]).decode('utf-8', 'replace')
        return f'{e}'

    @staticmethod
    def mutate(t, rng):
        e = rng.choice(t['ev'])
        if e['k'] == 'box':
            if e['r'] == 'ok':
                q = rng.random()
                if q < .3:
                    e['r'] = 'err'
                elif q < .7:
                    e['box'][rng.randrange(4)][4] ^= 1
                else:
                    e['shown'] = e['shown'][::-1]
            else:
                e['r'] = 'panic'
        elif e['k'] == 'show':
            e['box'][rng.randrange(4)][4] ^= 1
        elif e['k'] == 'time':
            if e['r'] == 'ok' and len(e['text']) == 20:
                i = rng.choice([3, 6, 9, 12, 15, 18])
                e['text'][i] = 48 + (e['text'][i] - 47) % 10
            else:
                e['r'] = 'panic'
        else:
            e['lat7'] = W(1 << 55)
        return t


def number(rng, lim, at=None):
    """A decimal text for a number of degrees in nanodegrees."""
    n = rng.choice([0, 1, lim, lim - 1, lim + 1, lim * 10, 5 * 10**8]) if at is None and rng.random() < .2 else rng.randint(0, lim) if at is None else at
    n = n // (p := rng.choice([1, 10, 1000, 10**6, 10**8, 10**9])) * p
    s = f'{n // 10**9}.{n % 10**9:09d}'
    q = rng.random()
    if q < .5:
        s = s.rstrip('0')
        if q < .4:
            s = s.rstrip('.')
    if s.startswith('0.') and rng.random() < .2 and len(s) > 2:
        s = s[1:]
    if rng.random() < .1:
        s = '00'[:rng.randint(1, 2)] + s
    return rng.choice(['', '', '-', '-', '+']) + s


WRONG = ['', '-', '.', '1-', '--1', '1 2', 'nan', 'NaN', '-nan', 'inf', '-inf', 'infinity', '180,', '1;2', 'abc', '0x10', '1_000', '180.000000001', '-90.1', '1..2', '1.2.3', '١', '1°', '+-1', '90a', '\u00a0']


def box_text(rng):
    k = rng.choice([4] * 12 + [0, 1, 3, 5, 6, 8])
    c = [number(rng, (180 if i % 2 == 0 else 90) * 10**9) for i in range(k)]
    if c and rng.random() < .3:
        c[rng.randrange(len(c))] = rng.choice(WRONG)
    sp = lambda: rng.choice(['', '', '', ' ', '  ', '\t', '\n', ' \r\n'])
    s = ','.join(sp() + x + sp() for x in c)
    if rng.random() < .05:
        s = s.replace(',', rng.choice([';', ' ', ', ,', ',,']), 1)
    return s


def C28(ctx):
    rng = ctx.rng
    ctx.model('ModelTextMC')
    ctx.model('WideMC')
    part = lambda ops, n: [dict(kind='texts', ops=ops[i:i + n]) for i in range(0, len(ops), n)]
    # every number at its limits in every place, then random texts
    ops = []
    for i in range(4):
        lim = (180 if i % 2 == 0 else 90) * 10**9
        for v in ('0', '-0', '+0', '.5', '5.', '-.5', f'{lim // 10**9}', f'-{lim // 10**9}', f'{lim // 10**9}.0', f'{lim // 10**9}.000000001', f'-{lim // 10**9}.000000001', f'{lim // 10**9 + 1}', f'-{lim // 10**9 + 1}', '90.5', '-90.5', '179.999999999', '-179.999999999') + tuple(WRONG):
            c = ['1.5', '2.25', '3.125', '4']
            c[i] = v
            ops += [','.join(c), ', '.join(c)]
    ops += [box_text(rng) for _ in range(ctx.scale(1500, 30000))]
    ctx.check(Texts('boxes'), part([dict(box=s.encode().hex()) for s in ops], 40))
    pt = lambda l: rng.choice([0, 1, -1, l, -l, rng.randint(-l, l), rng.randint(-l, l) // 10**8 * 10**8, rng.randint(-l, l) // 100 * 100 + rng.choice([0, 49, 50, 51])])
    P = lambda: [max(-90 * 10**9, min(90 * 10**9, pt(90 * 10**9))), max(-180 * 10**9, min(180 * 10**9, pt(180 * 10**9)))]
    ops = [dict(show=P()[::-1] + P()[::-1]) for _ in range(ctx.scale(500, 8000))] + [dict(deg7=P()) for _ in range(ctx.scale(1000, 20000))]
    ctx.check(Texts('numbers'), part(ops, 40))
    day = 86400 * 10**6
    ops = [0, -1, 1, 999_999, 10**6, -10**6, -999_999, -10**6 - 1, -62167219200 * 10**6, -62167219200 * 10**6 - 1, 253402300799 * 10**6 + 999_999, 253402300800 * 10**6, (1 << 63) - 1, -(1 << 63),
           8_210_266_876_799 * 10**6, -8_334_601_228_800 * 10**6]
    for y in (1600, 1900, 1970, 1999, 2000, 2004, 2100, 2400, 9999):    # around the ends of days, months, years
        for d in (-1, 0, 58, 59, 60, 364, 365, 366):
            b = ((y - 1970) * 365 + sum(1 for k in range(min(y, 1970), max(y, 1970)) if k % 4 == 0 and (k % 100 or k % 400 == 0)) * (1 if y > 1970 else -1) + d) * day
            ops += [b, b - 1, b + 1, b + rng.randrange(day)]
    ops += [rng.randint(-62167219200, 253402300799) * 10**6 + rng.randrange(10**6) for _ in range(ctx.scale(1000, 20000))]
    ops += [rng.randint(-10**10, 10**10) * 1000 for _ in range(200)] + [rng.randint(-(1 << 63), (1 << 63) - 1) for _ in range(100)]
    ctx.check(Texts('times'), part([dict(time=t) for t in ops], 40))
