"""Properties of the parallel writer, parallel iteration and accumulation."""
import json, os, random, re
import gen, pbf
from common import Family, ToolError, clip, drive, named
from conv import *
from p_pbf import frame_list, parse_file, parse_prefix, plain, fill, key_file, mutate_list, rm


# ---------------------------------------------------------------- the parallel writer
def decoded(path):
    """(data blocks, clean or partial)"""
    if not os.path.isfile(path):
        return [], 'clean'
    fr, bl, err = parse_prefix(path)
    try:
        blocks = [[fill(e) for e in pbf.decode_block(b)] for b in bl]
    except (IndexError, KeyError, TypeError) as e:
        return [], f'decode: {e!r}'
    if err is None and fr and fr[0]['type'] != 'OSMHeader':
        err = 'no header'
    if any(f['type'] != 'OSMData' for f in fr[1:]):
        err = 'blob type'
    return blocks, 'clean' if err is None else 'partial'


def until_close(ops):
    k = next((i for i, op in enumerate(ops) if op['op'] == 'close'), len(ops))
    return ops[:k]


def pw_trace(sc, ob, given_of=op_elements, frames=False):
    given = [e for op in until_close(sc['ops']) for e in given_of(op)]
    blocks, tail = decoded(sc['path'])
    ids = rename([e for op in sc['ops'] for e in given_of(op)], *blocks)
    k = lambda e: keyed(e, ids)
    res = ob.get('ops') or ob.get('partial') or []
    ev = []
    if ob.get('ctor', 'ok') != 'ok':
        ev.append(dict(k='ctor', r=outcome(ob['ctor'])))
    for i, op in enumerate(sc['ops']):
        if op['op'] == 'sleep':
            continue
        r = outcome(res[i]) if i < len(res) else overall(ob) if overall(ob) != 'ok' else 'none'
        if op['op'] in ('hdr', 'close', 'iter'):
            ev.append(dict(k=op['op'], r=r))
        else:
            ev.append(dict(k='batch' if op['op'] == 'es' else 'adds', es=[k(e) for e in given_of(op)], r=r))
        if i >= len(res):
            break
    ev.append(dict(k='disk', blocks=[[k(e) for e in b] for b in blocks], tail=tail))
    if frames:
        ev.append(dict(k='frames', fr=frame_list(parse_prefix(sc['path'])[0]) if os.path.isfile(sc['path']) else []))
    return dict(comp=sc.get('comp', 'zlib'), buf=sc['buf'], blk=sc['blk'], faulty=bool(sc.get('faulty')), order=sc.get('order', 'known'), window=sc.get('window', -1), n=len(given), ev=ev,
                what='parallel writer')


class PWriter(Family):
    name, spec = 'pwriter', 'TracePWriter'

    def __init__(self, name=None):
        if name:
            self.name = name

    def trace(self, sc, ob):
        if 'ws' in sc:
            obs = ob.get('ws') or [dict(ops=[], **{k: v for k, v in ob.items() if k in ('hang', 'crash', 'err', 'panic')})] * len(sc['ws'])
            return [pw_trace(s, o) for s, o in zip(sc['ws'], obs)]
        return pw_trace(sc, ob)

    def explain(self, t, pos):
        e = t['ev'][pos] if pos < len(t['ev']) else {}
        return f'parallel writer (buffer {t["buf"]}, block {t["blk"]}, {t["n"]} elements{", failing disk" if t["faulty"] else ""}): not explained: {json.dumps(clip(e))[:240]}; calls: ' \
               + ' '.join(f'{x["k"]}:{x["r"]}' for x in t['ev'] if 'r' in x)[:160]

    @staticmethod
    def mutate(t, rng):
        d = next(e for e in t['ev'] if e['k'] == 'disk')
        bs = [b for b in d['blocks'] if b]
        c = [e for e in t['ev'] if e['k'] == 'close']
        if not c:
            return None
        q = rng.random()
        if q < .15:
            c[0]['r'] = rng.choice(['panic', 'hang'])
        elif c[0]['r'] == 'err':
            if not bs or t['faulty'] and q < .6:
                c[0]['r'] = 'panic'
            else:
                b = rng.choice(bs)
                b.insert(0, json.loads(json.dumps(b[0])))
        elif not bs:
            c[0]['r'] = 'hang'
        elif q < .3 and len(bs) > 1 and bs[0][0][0] != bs[-1][0][0]:
            bs[0][0], bs[-1][-1] = bs[-1][-1], bs[0][0]
        else:
            mutate_list(rng.choice(bs), rng, False)
            return t if t['n'] and not equal_keys(t) else None
        return t


def equal_keys(t):
    """Equal elements may be in any order: a swap of two of them is no corruption."""
    ks = [tuple(e[:3]) for e in t['ev'] for e in e.get('es', [])]
    return len(ks) != len(set(ks))


def pool(rng, n):
    """n small elements of several types and versions, in OSM order."""
    types = rng.choice(['n', 'n', 'nw', 'nwr', 'nwr', 'wr'])
    out = []
    base = rng.choice([0, 0, -5, (1 << 31) - 3, 1 << 40])
    for t in types:
        k = n // len(types) if t != types[0] else n - (len(types) - 1) * (n // len(types))
        i = base
        for _ in range(k):
            i += rng.choice([0, 1, 1, 1, 2, 1000])
            v = max([e['ver'] for e in out if e['t'] == t and e['id'] == i] or [0]) + 1
            out.append(dict(plain(rng, t, i), ver=v))
    return out


def displace(rng, es, w):
    """A permutation in which no element comes after a greater one that was w or more places after it."""
    a = list(range(len(es)))
    if w > 1:
        a.sort(key=lambda i: i + rng.random() * w)
    return [es[i] for i in a]


def pw_calls(rng, es, sentinels=True):
    ops = []
    i = 0
    while i < len(es):
        q = rng.random()
        if q < .5:
            ops.append(dict(op='e', e=es[i]))
            i += 1
        elif q < .55:
            ops.append(dict(op='es', es=[]))
        else:
            k = rng.randint(1, 6)
            ops.append(dict(op='es', es=es[i:i + k]))
            i += k
        if sentinels and rng.random() < .2:
            s = dict(t='s')
            if rng.random() < .5 or ops[-1]['op'] == 'e':
                ops.append(dict(op='e', e=s))
            else:
                l = ops[-1]['es']
                l = list(l)
                l.insert(rng.randint(0, len(l)), s)
                ops[-1] = dict(op='es', es=l)
    return ops


def pw(ctx, ops, buf, blk, **kw):
    s = dict(kind='ppw', path=ctx.path('.pbf'), comp=ctx.rng.choice(['raw', 'zlib']), buf=buf, blk=blk, timeout_ms=30000,
             ops=[dict(op='hdr')] + ops + [dict(op='close')])
    s.update(kw)
    if ctx.rng.random() < .04:                         # the writer is used after it was closed
        s['ops'] += ctx.rng.choice([[dict(op='close')], [dict(op='e', e=ops[0]['e'] if ops and 'e' in ops[0] else dict(t='s')), dict(op='close')], [dict(op='es', es=[])], [dict(op='hdr')]])
    return s


def small_writes(ctx, n, hard):
    """Small inputs; hard: mostly further out of order than the buffer."""
    rng = ctx.rng
    out = [pw(ctx, [], 0, 1), pw(ctx, [dict(op='e', e=dict(t='s'))], 3, 2), pw(ctx, [dict(op='es', es=[])], 3, 2)]
    for _ in range(n):
        k = rng.choice([1, 2, 3, 5, 8, 13, 20])
        es = pool(rng, k)
        if rng.random() < .1:
            es.insert(rng.randrange(k), rng.choice(es))      # the same element given twice
        q = rng.random()
        if hard:
            es = displace(rng, es, rng.choice([2, 4, 8, 30])) if q < .7 else es[::-1] if q < .8 else rng.sample(es, len(es))
            buf, blk = rng.randint(0, max(1, k // 2)), rng.choice([1, 1, 2, 3, 5, 8000])
        else:
            w = rng.choice([1, 1, 2, 3, 5, 9])
            es = displace(rng, es, w)
            blk = rng.choice([1, 1, 2, 3, 5, 8000])
            buf = rng.choice([0, w + blk, w + blk, 2 * w + blk, k, k + 1, k - 1])
        out.append(pw(ctx, pw_calls(rng, es), max(0, buf), blk))
    return out


def arrivals(ctx, cfg='Arrivals.cfg'):
    r = ctx.model('Arrivals', cfg, workers=1, keep=True)
    return [json.loads(x) for x in sorted(set(re.findall(r'ORDER (\[.*?\])', r['out'])))] if r else []


def gate_writes(ctx, orders, fault=False):
    """Blocks that arrive at the writing thread in every order the encoding threads allow."""
    rng = ctx.rng
    out = []
    for o in orders:
        n = max(o)
        blk = rng.choice([1, 2, 3])
        k = n * blk - rng.randrange(blk) + rng.choice([0, 1])
        buf = rng.choice([0, 1, 3, k])
        es = [plain(rng, 'n', i) for i in range(k)]
        out.append(pw(ctx, [dict(op='es', es=es)] if buf >= k else [dict(op='e', e=e) for e in es], buf, blk, gate=dict(order=o, wait_ms=300)))
    return out


class PFrames(PWriter):
    """The structure of the files of the parallel writer."""
    name = 'parallel-structure'

    def trace(self, sc, ob):
        return pw_trace(sc, ob, frames=True)


def structure(ctx, wire):
    """Files of the parallel writer for C02: sorted input, so that the file must hold exactly it."""
    rng = ctx.rng
    scs = []
    for _ in range(ctx.scale(60, 600)):
        es = gen.elements(rng, rng.choice([1, 3, 8, 20, 40]), versions=rng.random() < .3, grid=True)
        es = [e for i, e in enumerate(es) if i == 0 or (RANK[e['t']], e['id'], e['ver']) > (RANK[es[i - 1]['t']], es[i - 1]['id'], es[i - 1]['ver'])]
        for e in es:
            e['ts'] = e['ts'] // 1000 * 1000
        scs.append(pw(ctx, gen.split_calls(rng, es), rng.choice([0, 1, 7, 100]), rng.choice([1, 2, 3, 8, 8000])))
    run = lambda t, first, n: dict(t=t, first=first, n=n)
    big = [pw(ctx, [dict(op='each', run=run('n', 1, 8001)), dict(op='es', run=run('w', 1, 8000)), dict(op='es', run=run('r', 1, 16001))], b, k)
           for b, k in ((0, 8000), (20000, 8000), (10, 100))]
    obs = ctx.observe(scs, (PFrames(), wire), pin=2)
    ctx.check(PFrames(), scs, obs=obs)
    ctx.check(wire, scs, obs=obs)
    ctx.check(PFrames('parallel-structure-big'), big, pin=2)
    import p_pbf
    for rs in p_pbf.huge_runs(ctx):
        s = pw(ctx, [dict(op='es', run=r) for r in rs], rng.choice([0, 20000]), 8000)
        ctx.check(PFrames('parallel-structure-huge'), [s])
        rmw(ctx, [s])
    r = lambda t, n, pad, first=1: dict(op=rng.choice(['each', 'es']), run=dict(t=t, first=first, n=n, pad=pad, fresh=1))
    s = pw(ctx, [r('n', 5, 3), r('w', 3, 3), r('w', 1, 34_000_000, 4), r('w', 9, 3, 5), r('r', 4, 3)], rng.choice([0, 3, 20000]), rng.choice([3, 8000]), faulty=1)
    ctx.check(PFrames('parallel-structure-refused'), [s])
    rmw(ctx, [s])
    rmw(ctx, scs + big)


class Gated(PWriter):
    name = 'arrivals'

    def __init__(self):
        self.hit = self.all = 0

    def trace(self, sc, ob):
        ev = [i for n, i in ob.get('events', []) if n == 'arrived']
        o = [i for i in sc['gate']['order'] if i in ev]
        self.all += 1
        self.hit += [i for i in ev if i in o] == o
        return pw_trace(sc, ob)


def large_writes(ctx, k):
    """Long inputs: more blocks than the queues hold, the usual block size, orders within a window."""
    rng = ctx.rng
    out = []
    run = lambda t, first, n, **kw: dict(t=t, first=first, n=n, **kw)
    out.append(pw(ctx, [dict(op='each', run=run('n', 1, 3000)), dict(op='each', run=run('w', 1, 500)), dict(op='es', run=run('r', -100, 300))], 10, 1))
    out.append(pw(ctx, [dict(op='es', run=run('n', 1, 2500))], 0, 2))
    out.append(pw(ctx, [dict(op='each', run=run('n', 1, 20001))], 100, 8000))
    out.append(pw(ctx, [dict(op='es', run=run('n', 1, 8000)), dict(op='es', run=run('n', 8001, 8000)), dict(op='es', run=run('w', 1, 8001))], 24000, 8000))
    for _ in range(k):
        n, w, blk = rng.choice([(600, 50, 7), (1500, 300, 100), (900, 2, 1), (1200, 120, 8000)])
        c = rng.choice([1, 3, 10])                      # runs of c elements are moved as a whole
        rs = [run('n', 1 + j * c, c) for j in range(n // c)]
        if rng.random() < .5:
            h = len(rs) // 2
            rs = rs[:h] + [run('w', r['first'], r['n']) for r in rs[:len(rs) - h]]
        rs = displace(rng, rs, max(1, w // c))
        ops = [dict(op=rng.choice(['es', 'each']), run=r) for r in rs]
        if rng.random() < .5:                           # several runs in one call
            g = rng.choice([2, 5])
            ops = [dict(op=rng.choice(['es', 'each']), runs=rs[j:j + g]) for j in range(0, len(rs), g)]
        win = 2 * w + c
        out.append(pw(ctx, ops, rng.choice([win + blk, win + blk, win // 2]), blk, window=win))
    return out


def several_writers(ctx, k):
    rng = ctx.rng
    out = []
    for _ in range(k):
        m = rng.choice([2, 2, 3])
        ws = []
        for j in range(m):
            es = pool(rng, rng.choice([0, 3, 8, 15]))
            w = rng.choice([1, 2, 4])
            blk = rng.choice([1, 2, 5])
            if rng.random() < .2:
                ws.append(pw(ctx, pw_calls(rng, rng.sample(es, len(es))), 1, blk))
            else:
                ws.append(pw(ctx, pw_calls(rng, displace(rng, es, w)), w + blk + 1, blk))
        s = dict(kind='ppws', ws=ws, timeout_ms=30000)
        if rng.random() < .6:
            o = [j for j, w in enumerate(ws) for _ in w['ops']]
            rng.shuffle(o)
            s['order'] = o
        out.append(s)
    return out


def rmw(ctx, scs):
    for s in scs:
        rm(ctx, s.get('ws', [s]))


def pw_models(ctx, faulty):
    for s in ('singles', 'batches'):
        ctx.model('ParallelWriterMC', f'ParallelWriterMC_{s}{"F" if faulty else ""}.cfg')


def C05(ctx):
    pw_models(ctx, False)
    scs = small_writes(ctx, ctx.scale(300, 4000), False)
    ctx.check(PWriter('restorable'), scs, pin=2)
    rmw(ctx, scs)
    scs = scs[::ctx.scale(6, 3)]
    ctx.check(PWriter('one-cpu'), scs, pin=1)
    rmw(ctx, scs)
    # over files that exist, which may be longer
    ctx.check(PWriter('replaced'), scs, pin=2, over=['path'])
    rmw(ctx, scs)
    fam = Gated()
    orders = arrivals(ctx)
    scs = gate_writes(ctx, orders)
    ctx.check(fam, scs, pin=2)
    if scs:
        ctx.notes.append(f'arrivals: {fam.hit} of {fam.all} generated orders were enforced exactly')
        ctx.log(ctx.notes[-1])
    rmw(ctx, scs)
    if ctx.thorough:
        fam = Gated()
        fam.name = 'arrivals7'
        scs = gate_writes(ctx, arrivals(ctx, 'Arrivals7.cfg'))
        ctx.check(fam, scs, pin=2)
        rmw(ctx, scs)
    scs = several_writers(ctx, ctx.scale(40, 400))
    ctx.check(PWriter('several'), scs, pin=4)
    rmw(ctx, scs)
    scs = large_writes(ctx, ctx.scale(12, 80))
    ctx.check(PWriter('large'), scs, pin=2)
    rmw(ctx, scs)


def C06(ctx):
    rng = ctx.rng
    pw_models(ctx, False)
    scs = small_writes(ctx, ctx.scale(450, 6000), True)
    ctx.check(PWriter('lost-order'), scs, pin=2)
    rmw(ctx, scs)
    # equal keys at the edge of what has been written; losses early, late, in a batch, across types
    scs = []
    N = lambda i, v=1: dict(plain(rng, 'n', i), ver=v)
    Wy = lambda i: plain(rng, 'w', i)
    for tail in ([N(5)], [N(4)], [N(6)], [N(5, 2)], [N(5, 0)], [N(-9)], [Wy(1)], [N(5), N(4)], [Wy(1), N(9)], [N(9), N(4), N(10)]):
        for blk in (1, 2, 6):
            for buf in (0, 1, 4):
                head = [N(1), N(2), N(3), N(5)] + [N(20 + j) for j in range(rng.choice([0, 2, 4]))]
                more = [Wy(50 + j) for j in range(rng.choice([0, 3]))]
                for style in ('e', 'es', 'mix'):
                    es = head + tail + more
                    ops = [dict(op='e', e=e) for e in es] if style == 'e' else [dict(op='es', es=es)] if style == 'es' else [dict(op='es', es=head), dict(op='es', es=tail), dict(op='es', es=more)]
                    scs.append(pw(ctx, ops, buf, blk))
    ctx.check(PWriter('edges'), scs, pin=2)
    rmw(ctx, scs)
    scs = []
    run = lambda t, first, n, **kw: dict(t=t, first=first, n=n, **kw)
    for _ in range(ctx.scale(10, 60)):
        n = rng.choice([400, 1000, 3000])
        at = rng.choice([0, n // 2, n])
        a = [dict(op=rng.choice(['es', 'each']), run=run('n', 10, n)), dict(op=rng.choice(['es', 'each']), run=run('n', 10 + n, n)),
             dict(op=rng.choice(['es', 'each']), run=run('w', 1, 100))]
        late = dict(op=rng.choice(['es', 'each']), run=run(rng.choice('nw'), rng.choice([1, 11 + at]), rng.choice([1, 3, 300]), ver=rng.choice([1, 2])))
        a.insert(rng.randint(1, 3), late)
        scs.append(pw(ctx, a, rng.choice([0, 10, 500, n]), rng.choice([1, 10, 1000])))
    scs.append(pw(ctx, [dict(op='each', run=run('n', 1000 - j, 1)) for j in range(600)], 5, 2))
    ctx.check(PWriter('lost-order-large'), scs, pin=2)
    rmw(ctx, scs)
    orders = arrivals(ctx)
    scs = gate_writes(ctx, rng.sample(orders, min(len(orders), ctx.scale(60, 384))))
    for s in scs:                                     # an element too late while blocks are under way
        s['ops'].insert(len(s['ops']) - 1, dict(op='e', e=plain(rng, 'n', -1)))
    fam = Gated()
    fam.name = 'arrivals-lost'
    ctx.check(fam, scs, pin=2)
    rmw(ctx, scs)
    scs = several_writers(ctx, ctx.scale(20, 200))
    ctx.check(PWriter('several'), scs, pin=4)
    rmw(ctx, scs)


def C07(ctx):
    rng = ctx.rng
    pw_models(ctx, True)
    # how long the complete files are
    base = []
    for n, blk in ((0, 1), (1, 1), (4, 2), (9, 1), (12, 4)):
        es = pool(rng, n) if n else []
        for style in ('e', 'es'):
            ops = [dict(op='e', e=e) for e in es] if style == 'e' else [dict(op='es', es=es)]
            base.append((ops, 0 if style == 'e' else n, blk))
    fam = PWriter('disk-full')
    if not ctx.only or fam.name in ctx.only or 'disk-full-large' in ctx.only:
        probe = [pw(ctx, o, b, k, comp='raw') for o, b, k in base]
        drive(ctx, probe, pin=2)
        sizes = [os.path.getsize(p['path']) for p in probe]
        rm(ctx, probe)
        scs = []
        for (o, b, k), s in zip(base, sizes):
            limits = range(s + 2) if s < 400 or ctx.thorough else sorted(rng.sample(range(s), 120)) + [0, 1, 4, s - 1, s, s + 1]
            for m in limits:
                scs.append(pw(ctx, o, b, k, comp='raw', fsize=m, faulty=m < s))
        ctx.check(fam, scs, pin=2)
        rm(ctx, scs)
        # many more elements than the queues hold, submitted after the failure; zlib
        scs = []
        run = lambda t, first, n, **kw: dict(t=t, first=first, n=n, **kw)
        for _ in range(ctx.scale(12, 80)):
            n, blk, buf = rng.choice([(3000, 1, 0), (3000, 2, 5), (1500, 1, 700), (9000, 100, 10)])
            op = rng.choice(['each', 'es'])
            k = rng.choice([1, 7])
            ops = [dict(op=op, run=run('n', 1 + j * (n // k), n // k)) for j in range(k)] + [dict(op='e', e=plain(rng, 'w', 1))]
            scs.append(pw(ctx, ops, buf, blk, fsize=rng.choice([0, 20, 90, 130, 200, 1000, 5000]), faulty=True))
        ctx.check(PWriter('disk-full-large'), scs, pin=2)
        rm(ctx, scs)
    # the target cannot be created
    scs = []
    for _ in range(ctx.scale(10, 30)):
        es = pool(rng, rng.choice([1, 5, 12]))
        ops = pw_calls(rng, es) + rng.choice([[], [dict(op='each', run=dict(t='r', first=(1 << 50), n=1200))]])
        bad = rng.choice(['/missing/dir/x.pbf', '', '/x' * 200])
        d = ctx.dir()
        s = pw(ctx, ops, rng.choice([0, 3]), rng.choice([1, 3]), faulty=True)
        s['path'] = d + bad
        scs.append(s)
    scs.append(dict(pw(ctx, [], 1, 1, faulty=True), path=ctx.dir() + '/no/x.pbf'))
    ctx.check(PWriter('cannot-create'), scs, pin=2)
    # failing writes while later blocks are waiting or arrive first
    orders = arrivals(ctx)
    scs = gate_writes(ctx, rng.sample(orders, min(len(orders), ctx.scale(60, 384))))
    for s in scs:
        s['comp'] = 'raw'
        s['fsize'] = rng.randint(60, 60 + 110 * 6)
        s['faulty'] = True
    fam = Gated()
    fam.name = 'arrivals-full'
    ctx.check(fam, scs, pin=2)
    rm(ctx, scs)
    # one writer fails, another one in the same process does not
    scs = several_writers(ctx, ctx.scale(20, 120))
    for s in scs:
        j = rng.randrange(len(s['ws']))
        s['ws'][j]['path'] = ctx.dir() + '/no/x.pbf'
        s['ws'][j]['faulty'] = True
    ctx.check(PWriter('several-failing'), scs, pin=4)
    rmw(ctx, scs)


# ---------------------------------------------------------------- parallel iteration
class PRead(Family):
    name, spec = 'iteration', 'TracePRead'

    def __init__(self, name=None):
        if name:
            self.name = name

    def trace(self, sc, ob):
        fr, bl, err = parse_file(sc['path'])
        assert err is None, err
        full = 'full' in sc
        blocks = [[fill(e) for e in pbf.decode_block(b)] for b in bl]
        got = ob.get('ev', [])
        key = lambda e: [e['t'], e['id'], e['ver']]
        ids = {v: i for i, v in enumerate(sorted({e['id'] for b in blocks for e in b} | {(x if isinstance(x, list) else key(x) if x['t'] != 's' else ['s', 0, 0])[1] for _, x in got}))}
        def form(x):
            if isinstance(x, list):
                return [RANK[x[0]], ids[x[1]] if x[0] != 's' else 0, x[2], '']
            return keyed(x, ids)
        fails = [[RANK[k[0]], ids.get(k[1], -1) if k[0] != 's' else 0, k[2]] for k in sc.get('fail', [])]
        end = overall(ob)
        return dict(blocks=[[keyed(e, ids, tok=full) for e in b] for b in blocks], fails=fails, ev=[[t, form(x)] for t, x in got],
                    end=outcome(ob['end']) if 'end' in ob else end, late=ob.get('late', 0), what='parallel iteration')

    @staticmethod
    def mutate(t, rng):
        q = rng.random()
        if q < .2 or not t['ev']:
            t['end'] = dict(ok='err', err='ok').get(t['end'], 'ok')
            return t
        if t['end'] != 'ok':
            return None
        i = rng.randrange(len(t['ev']))
        if q < .5:
            del t['ev'][i]
        elif q < .8:
            t['ev'].insert(i, t['ev'][i])
            if t['ev'][i][1][0] == 4 and any(not b for b in t['blocks']):
                return t
        else:
            t['ev'][i][1] = t['ev'][i][1][:3] + ['zz']
            if t['ev'][i][1][0] == 4:
                return None
        return t


def C08(ctx):
    rng = ctx.rng
    ctx.model('ParallelReadMC')
    shapes = [[], [0], [1], [3], [0, 0, 0], [2, 3, 1], [5, 0, 4, 0, 1], [1] * 12, [2, 30, 1, 1, 7], [4] * 9]
    scs = []
    for _ in range(ctx.scale(150, 2000)):
        sh = rng.choice(shapes)
        p = key_file(rng, ctx.path('.pbf'), sh)
        n = sum(sh)
        s = dict(kind='pfe', path=p, tasks=rng.choice([1, 1, 2, 3, 4, 8, 16]), full=1, timeout_ms=20000)
        if rng.random() < .3:
            s['late_ms'] = 20
        if n and rng.random() < .4:
            s['slow'] = [[rng.randrange(n), rng.choice([1, 5, 15])] for _ in range(rng.choice([1, 3]))]
        scs.append(s)
    ctx.check(PRead(), scs, pin=2)
    one = scs[::4]
    ctx.check(PRead('one-cpu'), one, pin=1)
    # the file at one path is replaced by another one; several iterations at the same time in one process
    ctx.check(PRead('replaced'), one, pin=2, over=['path'])
    ctx.check(PRead('together'), one, pin=4, together=3)
    # failing callbacks: every position of small files, sentinels, several failures, slow neighbours
    scs = []
    for sh in ([1], [3], [2, 2], [3, 1, 2], [1, 0, 1]):
        p = key_file(rng, ctx.path('.pbf'), sh)
        fr, bl, err = parse_file(p)
        keys = [[e['t'], e['id'], e['ver']] for b in bl for e in map(fill, pbf.decode_block(b))] + [['s', 0, 0]]
        for k in keys:
            for tasks in (1, 2, 5):
                scs.append(dict(kind='pfe', path=p, tasks=tasks, full=1, fail=[k], late_ms=5, timeout_ms=20000))
    for _ in range(ctx.scale(60, 800)):
        sh = rng.choice([s for s in shapes if sum(s)])
        p = key_file(rng, ctx.path('.pbf'), sh)
        fr, bl, err = parse_file(p)
        keys = [[e['t'], e['id'], e['ver']] for b in bl for e in map(fill, pbf.decode_block(b))]
        fail = rng.sample(keys, min(len(keys), rng.choice([1, 1, 2, 5])))
        s = dict(kind='pfe', path=p, tasks=rng.choice([1, 2, 3, 8]), full=1, fail=fail, late_ms=10, timeout_ms=20000)
        if rng.random() < .5:
            s['slow'] = [[rng.choice(keys)[1], rng.choice([2, 10])] for _ in range(2)]
        scs.append(s)
    ctx.check(PRead('failing'), scs, pin=2)
    # callbacks that panic instead: in one thread, in every thread
    ctx.check(PRead('panicking'), [dict(s, panics=1) for s in scs[::2]], pin=2)
    # more blocks than the queue holds; large blocks; failures with a full queue behind them
    scs = []
    for sh, tasks in (([1] * 1500, 4), ([1] * 1100, 1), ([0, 1, 2] * 450, 3), ([2000, 10, 3000], 2)):
        p = key_file(rng, ctx.path('.pbf'), sh)
        scs.append(dict(kind='pfe', path=p, tasks=tasks, late_ms=10, timeout_ms=60000))
        if sum(sh) < 3000:
            fr, bl, err = parse_file(p)
            keys = [[e['t'], e['id'], e['ver']] for b in bl for e in map(fill, pbf.decode_block(b))]
            scs.append(dict(kind='pfe', path=p, tasks=tasks, fail=rng.sample(keys[:50], 3), late_ms=10, timeout_ms=60000))
            scs.append(dict(kind='pfe', path=p, tasks=tasks, fail=[keys[-1]], slow=[[keys[-1][1], 30]], late_ms=60, timeout_ms=60000))
            scs.append(dict(kind='pfe', path=p, tasks=tasks, fail=keys[:40:2] + [['s', 0, 0]], timeout_ms=60000))
            scs.append(dict(kind='pfe', path=p, tasks=tasks, fail=keys[:40:2], panics=1, timeout_ms=60000))
    ctx.check(PRead('many-blocks'), scs, pin=4)


# ---------------------------------------------------------------- accumulation and the copy pipeline
class Acc(Family):
    name, spec = 'accumulators', 'TraceAcc'

    def __init__(self, name=None):
        if name:
            self.name = name

    def trace(self, sc, ob):
        scripts = sc.get('scripts') or [sc['ops']]
        outs = ob.get('outs') or ([ob['out']] if 'out' in ob else [])
        r = []
        for i, ops in enumerate(scripts):
            o = [dict(none=True)] * len(ops)
            for k, t, v in outs[i] if i < len(outs) else []:
                if t == ops[k][0]:
                    o[k] = dict(ok=True) if v is None else dict(els=v) if isinstance(v, list) else dict(bad=True)
            r.append(dict(ops=ops, out=o, threads=sc['threads'], accs=len(sc['accs']), what='accumulators'))
        return r

    def explain(self, t, pos):
        return f'accumulators: {json.dumps(t["ops"][:pos + 1][-8:])} returned {json.dumps(t["out"][pos:pos + 1])[:200]}'

    @staticmethod
    def mutate(t, rng):
        c = [o for o in t['out'] if 'els' in o]
        if not c:
            return None
        o = rng.choice(c)
        if o['els'] and rng.random() < .5:
            o['els'].pop()
        else:
            o['els'].append(99)
        return t


class Pipe(PWriter):
    name = 'pipeline'

    def trace(self, sc, ob):
        ops = [dict(op='hdr'), dict(op='es', es=sc['_given']), dict(op='iter'), dict(op='close')]
        o = dict(ob)
        if 'iter' in ob:
            o['ops'] = ['ok', 'ok', ob['iter'], ob['close']]
        else:
            o['ops'] = ['ok', 'ok']
        return pw_trace(dict(sc, ops=ops, path=sc['out']), o)


def pipe_scenario(ctx, src, es, tasks, buf, blk, drop, batch, cap):
    s = dict(kind='pipe', path=src, out=ctx.path('.pbf'), comp='raw', buf=buf, blk=blk, tasks=tasks, drop_mod=drop, cap=cap, timeout_ms=60000,
             _given=[e for e in es if drop == 0 or e['id'] % drop != 0], order='known' if tasks == 1 else 'schedule')
    if batch:
        s['batch'] = 1
    return s


def C10(ctx):
    rng = ctx.rng
    r = ctx.model('ThreadAccMC', workers=1, keep=True)
    scripts = [json.loads(x) for x in sorted(set(re.findall(r'SCRIPT (\[.*\])', r['out'].replace('\\"', '"'))))] if r else []
    if r and not scripts:
        raise ToolError('no scripts were generated')
    scripts = rng.sample(scripts, min(len(scripts), ctx.scale(8000, 60000)))
    n = 100
    ctx.check(Acc(), [dict(kind='tlas', threads=2, accs=[rng.choice([0, 1, 8000]), 4], scripts=scripts[i:i + n]) for i in range(0, len(scripts), n)])
    scs = []
    for k in range(ctx.scale(60, 600)):
        nt, na = rng.choice([(1, 3), (2, 2), (4, 5), (8, 3)])
        ops = []
        for i in range(rng.choice([20, 100, 300])):
            t, a = rng.randrange(nt), rng.randrange(na)
            ops.append([t, a, 'take'] if rng.random() < .2 else [t, a, 'add', i])
        for t in range(nt):
            for a in range(na):
                ops.append([t, a, 'take'])
        s = dict(kind='tla', threads=nt, accs=[rng.choice([0, 1, 2, 10, 8000]) for _ in range(na)], ops=ops)
        if k % 2:
            s['free'] = 1
        scs.append(s)
    ctx.check(Acc('random'), scs)
    # accumulators made and dropped by any thread, many of them
    scripts = []
    for k in range(ctx.scale(400, 4000)):
        nt, na = rng.choice([(1, 3), (2, 2), (4, 5), (8, 8), (3, 8)])
        ops, live = [], set()
        for i in range(rng.choice([20, 60, 150])):
            t, a = rng.randrange(nt), rng.randrange(na)
            if a not in live:
                ops.append([t, a, 'new'])
                live.add(a)
            elif rng.random() < .12:
                ops.append([t, a, 'drop'])
                live.discard(a)
            else:
                ops.append([t, a, 'take'] if rng.random() < .3 else [t, a, 'add', i])
        for t in range(nt):
            for a in sorted(live):
                ops.append([t, a, 'take'])
        scripts.append(ops)
    ctx.check(Acc('made-anywhere'), [dict(kind='tlas', threads=8, accs=[rng.choice([0, 1, 8000]) for _ in range(8)], scripts=scripts[i:i + 20]) for i in range(0, len(scripts), 20)])
    # hundreds of accumulators in use at the same time, and tens of thousands made between two uses of one
    scs = []
    for na in ctx.scale([300, 700], [300, 700, 1500]):
        ops = [[0, a, 'add', a] for a in range(na)] + [[1, a, 'add', na + a] for a in range(0, na, 7)]
        takes = [[t, a, 'take'] for a in range(na) for t in (0, 1)]
        rng.shuffle(takes)
        scs.append(dict(kind='tla', threads=2, accs=[1] * na, ops=ops + takes))
    for n in ctx.scale([250, 256, 65536], [255, 256, 257, 512, 65535, 65536, 65537, 300000]):
        ops = []
        for t in (0, 1):
            ops += [[0, 0, 'new'], [0, 0, 'add', 1], [1, 0, 'add', 2], [t, 2, 'churn', n - 1]]
            ops += [[1, 1, 'new'], [0, 1, 'add', 3], [1, 1, 'add', 4], [t, 2, 'churn', 3]]
            ops += [[x, a, 'take'] for a in (0, 1) for x in (0, 1)] + [[0, 1, 'drop']]
        scs.append(dict(kind='tlas', threads=2, accs=[1, 1, 1], scripts=[ops]))
    ctx.check(Acc('many'), scs)
    # one thread adds more than the capacity
    ctx.check(Acc('capacity'), [dict(kind='tla', threads=1, accs=[c], ops=[[0, 0, 'add', i] for i in range(m)] + [[0, 0, 'take'], [0, 0, 'take']])
                                for c in (0, 1, 5) for m in (1, 5, 6, 40)])
    if ctx.only and not {'pipeline', 'pipeline-one-cpu', 'pipeline-big'} & ctx.only:
        return
    # copying and filtering files
    scs = []
    for _ in range(ctx.scale(110, 1500)):
        src = ctx.path('.pbf')
        shape = rng.choice([[0], [3], [2, 2], [1] * 10, [4, 0, 5, 3, 0, 2], [7] * 6, [3, 1] * 10])
        es = sorted_file(rng, src, shape)
        tasks = rng.choice([1, 2, 3, 4, 8])
        blk = rng.choice([1, 2, 5, 8000])
        buf = rng.choice([len(es), len(es) + 5]) if tasks > 1 and rng.random() < .8 else rng.choice([0, 2, 6, 20])
        scs.append(pipe_scenario(ctx, src, es, tasks, buf, blk, rng.choice([0, 0, 2, 3]), rng.random() < .7, rng.choice([0, 3, 8000])))
    ctx.check(Pipe(), scs, pin=2)
    scs = scs[::5]
    ctx.check(Pipe('pipeline-one-cpu'), scs, pin=1)
    scs = []
    for shape, tasks in (([300] * 12, 4), ([1] * 400, 3), ([2500, 10, 2500], 2)):
        src = ctx.path('.pbf')
        es = sorted_file(rng, src, shape)
        scs.append(pipe_scenario(ctx, src, es, tasks, len(es), 100, 0, True, 8000))
        scs.append(pipe_scenario(ctx, src, es, 1, 10, 50, 3, False, 8000))
    ctx.check(Pipe('pipeline-big'), scs, pin=4)


def sorted_file(rng, path, blocks):
    """A file in OSM order with the given numbers of elements in its blocks; returns its elements."""
    odd = .2 if rng.random() < .2 else 0
    out = pbf.some_foreign(rng, odd) + pbf.frame('OSMHeader', pbf.enc_header())
    n = sum(blocks)
    a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
    es = []
    small = n > 500
    for i in range(n):
        e = plain(rng, 'n' if i < a else 'w' if i < b else 'r', (i if rng.random() < .9 else i) * 2 + (1 if small else rng.choice([0, 1])))
        if small:
            for k in ('tags', 'refs', 'mem'):
                if k in e:
                    e[k] = e[k][:2]
        es.append(e)
    i = 0
    for m in blocks:
        part = es[i:i + m]
        i += m
        groups = []
        for t, k in (('n', rng.choice(['dense', 'nodes'])), ('w', 'ways'), ('r', 'rels')):
            g = [e for e in part if e['t'] == t]
            if g:
                groups.append((k, g))
        out += pbf.frame('OSMData', pbf.Enc(rng).block(groups), rng.choice(['raw', 'zlib'])) + pbf.some_foreign(rng, odd)
    with open(path, 'wb') as f:
        f.write(out)
    return es
