"""C25: files and threads are released. C26: memory does not grow with the data."""
import json, os, shutil
import apidb, gen, pbf
from common import Family, drive, named
from conv import outcome, overall
from p_dump import rich
from p_pbf import key_file
from p_conv import content
from p_dmg import base_file, damages


class Held(Family):
    spec = 'TraceResources'
    per = 24

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        ops, held = [], []
        bad = overall(ob)
        for k, (s, o) in enumerate(zip(sc['subs'], ob.get('subs', []))):
            if s.get('fds'):
                for op, f in zip(s['ops'], o['ob'].get('fds', [])):
                    w = {'reader': 'open', 'clone': 'open', 'el': 'open', 'bl': 'open', 'drop': 'drop', 'unread': 'drop'}.get(op[0], 'use')
                    ops.append([w, f'{op[0] in ("reader", "clone", "unread")}{op[1]}'])
                    held.append([f, -1])
            ops.append(['end', f'{s["kind"]} ({s.get("note", "")})'])
            held.append([o['files'], o['threads']])
        t = dict(ops=ops, held=held, per=self.per, done=bad == 'ok' and len(ob['subs']) == len(sc['subs']), what='use of the library', end=bad)
        if not os.environ.get('VERIF_KEEP'):
            for p in sc['scratch']:
                shutil.rmtree(p, ignore_errors=True)
        return t

    def explain(self, trace, pos):
        if pos < len(trace['held']):
            return f'after operation {pos + 1} of {len(trace["ops"])}, {trace["ops"][pos]}, {trace["held"][pos][0]} files and {trace["held"][pos][1]} threads more than at the start'
        return f'the end: {trace["end"]}'

    @staticmethod
    def mutate(t, rng):
        ends = [k for k, o in enumerate(t['ops']) if o[0] == 'end']
        t['held'][rng.choice(ends)][rng.randrange(2)] += 1
        return t


def script(rng, files, dump):
    """Readers and iterators, some of them unfinished, dropped at some time or at the end."""
    ops, readers, its = [['reader', 0, 0]], {0}, set()
    for _ in range(rng.choice([8, 20, 40])):
        q = rng.random()
        if q < .12 and len(readers) < 4:
            r = min(set(range(8)) - readers)
            readers.add(r)
            ops.append(['reader', r, rng.randrange(files)])
        elif q < .45 and len(its) < 6 and readers:
            i = min(set(range(16)) - its)
            its.add(i)
            ops.append([rng.choice(['el', 'el', 'bl']) if not dump else 'el', i, rng.choice(sorted(readers))])
        elif q < .65 and its:
            i = rng.choice(sorted(its))
            its.remove(i)
            ops.append(['drop', i])
        elif q < .7 and readers:
            r = rng.choice(sorted(readers))
            readers.remove(r)
            ops.append(['unread', r])
        elif q < .74 and readers and not dump:
            ops.append([rng.choice(['count', 'par']), rng.choice(sorted(readers))])
        elif its:
            i = rng.choice(sorted(its))
            ops += [['next', i]] * rng.choice([1, 2, 5, 40])
    return ops


def C25(ctx):
    rng = ctx.rng
    ctx.model('ResourcesMC')
    fam = Held('uses')
    if ctx.only and not ctx.only & {'uses', 'together'}:
        return

    def cut(p):
        q = ctx.path('.pbf')
        data = open(p, 'rb').read()
        with open(q, 'wb') as f:
            f.write(data[:rng.randrange(len(data))])
        return q

    def flip(p):
        q = ctx.path('.pbf')
        data = bytearray(open(p, 'rb').read())
        for _ in range(rng.choice([1, 3])):
            i = rng.randrange(len(data) * 2 // 3, len(data))
            data[i] ^= 1 << rng.randrange(8)
        with open(q, 'wb') as f:
            f.write(data)
        return q

    def blocks():
        """Blocks that cannot be decoded."""
        q = ctx.path('.pbf')
        bl = base_file(rng, q, [1] * rng.choice([1, 3, 12]))
        with open(q, 'wb') as f:
            f.write(pbf.frame('OSMHeader', pbf.enc_header()) + b''.join(rng.choice(sorted(damages(rng, b).values())) for b in bl[1:]))
        return q

    def sub(pool):
        k = rng.choice(['iters', 'pfe', 'pfe', 'pfe', 'count', 'bbox', 'pbfw', 'ppw', 'ppw', 'diters', 'adbr', 'adbw'])
        p = rng.choice(pool['pbf'])
        bad = rng.choice(['cut', 'cut', 'flip', 'blocks', 'blocks', 'missing', 'dir', 'text'])
        q = dict(blocks=blocks, cut=lambda: cut(p), flip=lambda: flip(p), missing=lambda: ctx.path('.nothing'), dir=lambda: ctx.work, text=lambda: pool['text'])[bad]
        if k == 'iters':
            return dict(kind=k, note='iterators', paths=pool['pbf'], ops=script(rng, len(pool['pbf']), False), fds=1)
        if k == 'diters':
            return dict(kind=k, note='iterators over dumps', paths=pool['dump'], tmp=ctx.path('.work'), ops=script(rng, len(pool['dump']), True), fds=1)
        if k in ('pfe', 'count', 'bbox'):
            r = dict(kind=k, path=p, tasks=rng.choice([1, 2, 3, 8]), note='all well')
            z = rng.random()
            if z < .35:
                r.update(path=q(), note=bad)
            elif z < .6 and k == 'pfe':
                if rng.random() < .5:
                    r['panics'] = 1
                r.update(fail=[['s', 0, 0]] if rng.random() < .3 else [[t, i, v] for i in range(0, 60, rng.choice([1, 7])) for t in 'nwr' for v in range(8)], note='the function fails')
            return r
        lim = {} if rng.random() < .5 else dict(fsize=rng.choice([0, 1, 50, 120, 300, 1000, 5000]))
        note = 'the disk is full' if lim else 'all well'
        n = rng.choice([0, 1, 20, 300])
        if k == 'pbfw':
            return dict(kind=k, path=ctx.path('.pbf'), note=note, ops=[dict(op='hdr')] + [dict(op='es', runs=[dict(t='n', first=1, n=n)])] + [dict(op='close')] * rng.choice([0, 1, 1, 1]), **lim)
        if k == 'ppw':
            path = ctx.path('.pbf')
            if rng.random() < .15:
                path, note = os.path.join(ctx.work, 'nowhere', 'x.pbf'), 'no such directory'
            first, back = 1, []
            if rng.random() < .2:
                back, note = [dict(op='es', runs=[dict(t='n', first=-5000, n=3)])], 'order lost, ' + note
            return dict(kind=k, path=path, note=note, buf=rng.choice([0, 10, 100]), blk=rng.choice([1, 10, 50]),
                        ops=([dict(op='hdr')] if rng.random() < .9 else []) + [dict(op='es', runs=[dict(t='n', first=first, n=n)])] + back + [dict(op='close')] * rng.choice([1, 1, 2]), **lim)
        if k == 'adbr':
            d = rng.choice(pool['dump'])
            z = rng.random()
            if z < .6:
                d2 = ctx.path('.dump')
                shutil.copytree(d, d2)
                f = rng.choice(sorted(os.listdir(d2)))
                if z < .3:
                    os.unlink(os.path.join(d2, f))
                else:
                    data = open(os.path.join(d2, f), 'rb').read()
                    with open(os.path.join(d2, f), 'wb') as h:
                        h.write(data[:rng.randrange(len(data) + 1)])
                return dict(kind=k, dir=d2, tmp=ctx.path('.work'), note=f'{f} missing' if z < .3 else f'{f} cut')
            return dict(kind=k, dir=d, tmp=ctx.path('.work'), note='all well')
        return dict(kind=k, dir=ctx.path('.out'), note=note, ops=[dict(op='es', runs=[dict(t='n', first=1, n=n, step=3)])] + [dict(op='close')] * rng.choice([0, 1, 1]), **lim)

    pool = dict(pbf=[key_file(rng, ctx.path('.pbf'), b) for b in ([3, 0, 2], [5] * 12, [1, 1, 30])], dump=[], text=ctx.path('.txt'))
    with open(pool['text'], 'w') as f:
        f.write('no PBF file\n' * 20)
    for n in (0, 6, 20):
        d = ctx.path('.dump')
        apidb.write_dump(d, content(rng, n), rng, order='shuffle')
        pool['dump'].append(d)
    scs = []
    for _ in range(ctx.scale(120, 2000)):
        subs = [dict(kind='count', path=pool['pbf'][0])] + [sub(pool) for _ in range(rng.choice([6, 12, 20]))]
        scs.append(dict(kind='res', subs=subs, timeout_ms=30000,
                        scratch=[s[k] for s in subs for k in ('tmp', 'dir') if k in s and s[k] not in pool['dump']]))
    # the same use again and again
    for _ in range(ctx.scale(40, 400)):
        s = sub(pool)
        scs.append(dict(kind='res', subs=[s] * 12, timeout_ms=30000, scratch=[s[k] for k in ('tmp', 'dir') if k in s and s[k] not in pool['dump']]))
    ctx.check(fam, scs, pin=2)


# ---------------------------------------------------------------- C26
class Memory(Family):
    spec = 'TraceMemory'

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        runs, block = [], 0
        bad = overall(ob)
        for r in ob.get('runs', []):
            w = r['what']
            if w in ('seqw', 'seqws'):
                block = 8000
            elif w in ('parw', 'parws'):
                block = sc.get('blk', sc['per'])
            runs.append(dict(what=w, end=outcome(r['end']), seen=r['seen'], peak=max(r['peak'], 0), kept=r['kept'], block=block, reads=w in ('elements', 'blocks', 'dumpr', 'count', 'acc', 'refill'),
                             tasks=4 if w in ('par', 'copy', 'fails') else 8))
        runs = runs if bad == 'ok' and len(runs) == len(sc['what']) else runs + [dict(what=sc['what'][len(runs)], end=bad, seen=0, peak=0, kept=0, block=0, reads=False, tasks=1)]
        if not os.environ.get('VERIF_KEEP'):
            for p in (sc['dir'], sc['tmp']):
                shutil.rmtree(p, ignore_errors=True)
            if os.path.exists(sc['path']):
                os.unlink(sc['path'])
        return dict(runs=runs, unit=ob.get('unit', 1), per=sc['per'], blk=sc.get('blk', sc['per']), buf=sc.get('buf', sc['per']), n=sc['per'] * sc['blocks'], what='memory')

    def explain(self, trace, pos):
        r = trace['runs'][pos]
        return f'{r["what"]} of {trace["n"]} elements in blocks of {r["block"]}: ended {r["end"]}, {r["seen"]} elements, {r["peak"]} bytes at most ({r["peak"] * trace["per"] // trace["unit"]} elements), {r["kept"]} bytes kept'

    @staticmethod
    def mutate(t, rng):
        r = rng.choice(t['runs'])
        if rng.random() < .5:
            r['kept'] = 400000
        else:
            r['peak'] = t['unit'] * (t['n'] // t['per'])
        return t


def C26(ctx):
    rng = ctx.rng
    ctx.model('MemoryMC')
    scs = []
    for t, per, pad in [('n', 100, 0), ('w', 100, 0), ('r', 50, 40)] * ctx.scale(1, 3):
        n = ctx.scale(3200, 10000)
        what = [w for w in ('seqw', 'elements', 'blocks', 'par', 'parws', 'elements', 'par', 'count', 'bbox', 'parw', 'blocks', 'seqws', 'elements', 'dumpw', 'dumpr', 'parws', 'lost', 'parws', 'copy', 'acc', 'early', 'refill', 'fails') if w != 'bbox' or t == 'n']
        scs.append(dict(kind='mem', t=t, path=ctx.path('.pbf'), dir=ctx.path('.dump'), tmp=ctx.path('.work'), blocks=n, per=per, pad=pad, comp=rng.choice(['zlib', 'raw']),
                        info={}, what=what, timeout_ms=600000))
    # calls with more elements than a block has
    for per, blk, buf in [(2000, 50, 100), (1000, 100, 3000)] * ctx.scale(1, 3):
        t = rng.choice('nw')
        scs.append(dict(kind='mem', t=t, path=ctx.path('.pbf'), dir=ctx.path('.dump'), tmp=ctx.path('.work'), blocks=ctx.scale(400, 2000), per=per, blk=blk, buf=buf, pad=0,
                        comp='raw', info={}, what=['parws', 'parw'], timeout_ms=600000))
    # a disk that is full while much is still to come
    for t in 'nwr':
        scs.append(dict(kind='mem', t=t, path=ctx.path('.pbf'), dir=ctx.path('.dump'), tmp=ctx.path('.work'), blocks=ctx.scale(4000, 20000), per=20, pad=1000, fresh=1,
                        comp='raw', info={}, what=['full', 'parws'], timeout_ms=600000))
    ctx.check(Memory('growth'), scs, pin=2)
