"""API database dumps: C12 .. C17, and the part of C20 that concerns dumps."""
import json, os, re, shutil
import apidb, gen
from apidb import DumpFiles, typed
from common import Family, W, drive, hx, named
from conv import *

HIST = ['closed', 'nodes', 'ways', 'relations', 'node_tags', 'way_tags', 'relation_tags', 'way_nodes', 'relation_members']
CUR = ['closed'] + ['current_' + s for s in HIST[1:]]
REF = ['closed', 'users', 'changesets', 'changeset_tags', 'files']
ALL = HIST + CUR[1:] + REF[1:]


# ---------------------------------------------------------------- histories
def text(rng, chars=None):
    chars = chars or PAL
    return ''.join(rng.choice(chars) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])))


PAL = list('\\\\\\Nn.abtx07 \t\n\r\b\f\v"\',;') + ['é', '日', '😀', '\x01', '\x7f', '\x85', '\u2028', 'e\u0301']
WORDS = ['\\N', '\\.', '\\\\N', 'N', '', ' ', '\\', '\\\\', 'a\\', '\t', '\n', '\r\n', '\\n', '\\t', '\\x41', '\\101', 'null', 'NULL', '\\.\n', 'a\tb', 'a\nb', 'a\\b', 'ends \\', '\x0b', '\x08', '\x0c',
         'ümlaut', '用户', 'x' * 255, '"quoted"', "it's", '\ufeff', '\u2028', ' lead', 'trail ']


def tame(es, rng=None, texts=False, plain=False):
    """What the database can hold: no NUL, at most 255 characters, keys unique."""
    for e in es:
        e['user'] = e['user'][:255].replace('\0', '')
        if texts and rng.random() < .5:
            e['user'] = rng.choice(WORDS) if rng.random() < .5 else text(rng)
        t = {}
        for k, v in e['tags']:
            if texts and rng.random() < .5:
                k = rng.choice(WORDS) if rng.random() < .5 else text(rng)
            if texts and rng.random() < .5:
                v = rng.choice(WORDS) if rng.random() < .5 else text(rng)
            t[k[:255].replace('\0', '')] = v[:255].replace('\0', '')
        e['tags'] = [[k, v] for k, v in t.items()]
        for m in e.get('mem', []):
            if texts and rng.random() < .3:
                m[2] = rng.choice(WORDS) if rng.random() < .5 else text(rng)
            m[2] = m[2][:255].replace('\0', '')
    return es


def rich(rng, n, texts=False, vis=None, **kw):
    es = tame(gen.elements(rng, n, versions=True, dup=False, **kw), rng, texts)
    few = rng.random() < .5
    for e in es:
        if few:                                      # few users and changesets, so that they repeat
            e['cs'], e['uid'] = rng.randint(1, 4), rng.randint(1, 3)
            e['user'] = rng.choice(['ann', 'bob', e['user']])
        if vis is not None:
            e['vis'] = rng.random() < vis
        if len(e.get('refs', [])) > 60 and rng.random() < .9:
            e['refs'] = e['refs'][:12]
        if len(e.get('mem', [])) > 60 and rng.random() < .9:
            e['mem'] = e['mem'][:12]
    return es


def concrete(h, rng, shift=0):
    """An abstract history from the model, with content: kids says whether there are tags, nodes, members."""
    out = []
    for a in h:
        kids = a['kids']
        e = dict(t=a['t'], id=a['id'] + shift, ver=a['ver'], vis=a['vis'], ts=1000 * rng.randint(0, 2_000_000_000), cs=rng.randint(1, 3), uid=rng.randint(1, 2), user=rng.choice(['u', 'v']),
                 tags=[[f'k{i}', rng.choice(gen.VALS)] for i in range(rng.randint(1, 2))] if kids else [])
        if a['t'] == 'n':
            e['lat'], e['lon'] = gen.coord(rng, True), gen.coord(rng, False)
        elif a['t'] == 'w':
            e['refs'] = [rng.randint(1, 5) for _ in range(rng.randint(1, 3))] if kids else []
        else:
            e['mem'] = [[rng.choice('nwr'), rng.randint(1, 5), rng.choice(gen.ROLES)] for _ in range(rng.randint(1, 3))] if kids else []
        out.append(e)
    return out


def histories(ctx, shapes):
    hs = []
    for s in shapes:
        r = ctx.model('ApidbWriterMC', f'ApidbWriterMC_{s}.cfg', keep=True)
        if r is None:
            continue
        seen = dict.fromkeys(re.findall(r'"HISTORY (.*)"', r['out']))
        hs += [json.loads(json.loads('"' + x + '"')) for x in seen]
    return hs


def joined(hs, rng, size=60):
    """Several abstract histories in one, on ids of their own, in OSM order."""
    out = []
    for i in range(0, len(hs), size):
        es = [e for k, h in enumerate(hs[i:i + size]) for e in concrete(h, rng, 10 * k)]
        es.sort(key=lambda e: ('nwr'.index(e['t']), e['id'], e['ver']))
        out.append(es)
    return out


def calls(rng, es):
    """Ways to give the elements to the writer; the writer takes one at a time."""
    ops, i = [], 0
    while i < len(es):
        k = rng.choice([1, 3, 10, 1000])
        ops.append(dict(op='es', es=es[i:i + k]))
        i += k
    return ops + [dict(op='close')]


# ---------------------------------------------------------------- writing
class Dump(Family):
    spec = 'TraceDump'

    def __init__(self, name, steps):
        self.name, self.steps = name, steps

    def trace(self, sc, ob):
        n = next((i for i, op in enumerate(sc['ops']) if op['op'] == 'close'), len(sc['ops'])) + 1
        given = [e for op in sc['ops'][:n] for e in op_elements(op)]
        bad = overall(ob)
        end = bad if bad != 'ok' else next((outcome(o) for o in ob['ops'][:n] if o != 'ok'), 'ok')
        after = [dict(k='close' if op['op'] == 'close' else 'write', r=outcome(o)) for op, o in zip(sc['ops'][n:], ob.get('ops', [])[n:])]
        d = DumpFiles(sc['dir'])
        steps = list(sc.get('steps', self.steps))
        ty = typed(d) if end == 'ok' else {}
        # the files of interest are those of the dump that is described, no others
        tables = {k: v for k, v in ty.items() if k in steps}
        files = [d.report(n) for n in d.tables] if 'files' in steps and end == 'ok' else []
        t = dict(h=[full(e) for e in given], end=end, after=after, tables=tables, files=files, tocok=d.error is None and len(d.tables) > 0, steps=steps, fault=bool(sc.get('fault')), what=sc.get('what', 'dump'))
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(sc['dir'], ignore_errors=True)
        return t

    def explain(self, trace, pos):
        s = trace['steps'][pos]
        x = trace['tables'].get(s, [])
        if s == 'files':
            x = [f for f in trace['files'] if not f['exists'] or f['markers'] != 1 or not f['last'] or f['badwidth'] or f['badvalue']]
        return f'{trace["what"]}: {s} is not what the history of {len(trace["h"])} versions asks for; the end was {trace["end"]}; found {json.dumps(x)[:300]}'

    @staticmethod
    def mutate(t, rng):
        if t['fault']:
            if t['end'] != 'err':
                return None
            t['end'] = 'panic'
            t['steps'] = ['closed']
            t['fault'] = False
            return t
        cand = [s for s in t['steps'] if t['tables'].get(s)]
        if 'files' in t['steps'] and (not cand or rng.random() < .3):
            f = rng.choice(t['files'])
            k = rng.choice(['exists', 'last', 'markers', 'badwidth', 'badvalue'])
            f[k] = not f[k] if isinstance(f[k], bool) else f[k] + 1
            return t
        if not cand:
            return None
        s = rng.choice(cand)
        rows = t['tables'][s]
        i = rng.randrange(len(rows))
        q = rng.random()
        if q < .25:
            del rows[i]
        elif q < .4:
            rows.append(rows[i])
        elif isinstance(rows[i], dict):
            k = rng.choice(sorted(rows[i]))
            if k == 'name':
                rows[i][k] += '21'
            elif k == 'vis':
                rows[i][k] = not rows[i][k]
            elif k == 'uid':
                rows[i][k] = W(987654321)
            else:                                    # beyond the tolerance of a rounded value
                rows[i][k] = rows[i][k][:4] + [(rows[i][k][4] + 9) % 32768]
        elif s == 'changeset_tags':                   # what their values are is not specified
            rows[i][0] = W(987654321)
        else:
            rows[i][-1] = rows[i][-1] + '21' if isinstance(rows[i][-1], str) else W(987654321)
        return t


def written(ctx, name, steps, shapes):
    """The scenarios C12, C13 and C17 have in common; each judges its own tables."""
    rng = ctx.rng
    fam = Dump(name, steps)
    scs = []

    def add(es, what, **kw):
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=calls(rng, es), what=what, **kw))
    hs = histories(ctx, shapes)
    for h in hs:
        add(concrete(h, rng), 'history of the model')
    for es in joined(hs, rng):
        add(es, 'histories of the model in one')
    for i in range(ctx.scale(160, 1500)):
        n = rng.choice([0, 1, 2, 5, 10, 20, 40])
        add(rich(rng, n, texts=rng.random() < .3, vis=rng.choice([None, .5, .1, 1])), 'random history')
    ctx.check(fam, scs)
    # into directories with an older dump; several dumps at the same time
    for kw, what in ((OVER, 'replaced'), (TOGETHER, 'together')):
        scs = []
        for i in range(ctx.scale(40, 400)):
            add(rich(rng, rng.choice([0, 1, 5, 20]), vis=rng.choice([None, .5])), 'dump ' + what)
        ctx.check(Dump(name + '-' + what, steps), scs, **kw)
    # many versions of few objects
    deep = Dump(name + '-deep', steps)
    scs = []
    for i in range(ctx.scale(24, 200)):
        es = []
        for t in rng.choice(['n', 'w', 'r', 'nw', 'wr', 'nr', 'nwr']):
            for id in sorted(rng.sample(range(1, 50), rng.randint(1, 3))):
                vs = sorted(rng.sample(range(1, 60), rng.randint(1, 14)))
                es += [gen.element(rng, t, id, v, neg=False, dup=False) for v in vs]
        for e in es:
            e['vis'] = rng.random() < rng.choice([.3, .7])
            e['refs' if e['t'] == 'w' else 'mem'] = (e.get('refs') or e.get('mem') or [])[:rng.choice([0, 1, 6, 12])]
            if e['t'] == 'n':
                del e['mem']
        add(tame(es), 'many versions')
    ctx.check(deep, scs)
    # very many way nodes, members and tags of one version
    scs = []
    for i in range(ctx.scale(1, 4)):
        es = [dict(gen.element(rng, t, 7, 3, neg=False, dup=False), user='u', tags=[], vis=True) for t in 'nwr']
        es[0]['tags'] = [[f'k{j}', 'v'] for j in range(300)]
        es[1]['refs'] = [(j * 7919) % 40009 + 1 for j in range(rng.choice([32768, 33000]))]
        es[2]['mem'] = [['nwr'[j % 3], (j * 7919) % 40009 + 1, rng.choice(['', 'inner', 'outer'])] for j in range(rng.choice([32769, 33000]))]
        add(es, 'very many children')
    ctx.check(Dump(name + '-many', [s for s in steps if s not in ('users', 'changesets', 'changeset_tags')]), scs)
    # coordinates, for the tile and the columns of integers
    if 'nodes' in steps or 'current_nodes' in steps:
        grid = Dump(name + '-grid', [s for s in steps if s in ('closed', 'nodes', 'current_nodes')])
        scs = []
        for i in range(ctx.scale(8, 60)):
            es = []
            for k in range(1, 41):
                e = gen.element(rng, 'n', k, 1, dup=False)
                e['tags'], e['vis'], e['user'] = [], True, 'u'
                if k % 3 == 0:                       # near the edge between two tiles
                    x, y = rng.randint(0, 65534), rng.randint(0, 65534)
                    e['lon'] = round((x + .5) * 360e9 / 65535 - 180e9) + rng.choice([-3000000, -200, 0, 200, 3000000])
                    e['lat'] = round((y + .5) * 180e9 / 65535 - 90e9) + rng.choice([-3000000, -200, 0, 200, 3000000])
                elif k % 3 == 1:
                    e['lon'] = rng.choice([-1, 1]) * rng.choice([0, 1, 49, 50, 51, 99, 100, 149, 150, 10**9 - 1, 180 * 10**9 - 1, 180 * 10**9])
                    e['lat'] = rng.choice([-1, 1]) * rng.choice([0, 1, 49, 50, 51, 99, 100, 149, 150, 10**9 - 1, 90 * 10**9 - 1, 90 * 10**9])
                es.append(e)
            add(es, 'coordinates')
        ctx.check(grid, scs)


def C12(ctx):
    written(ctx, 'history', HIST, ['n', 'w', 'r', 'mixed'])
    times(ctx)


def C13(ctx):
    written(ctx, 'current', CUR, ['n', 'w', 'r', 'mixed'] + (['deep'] if ctx.thorough else []))


def times(ctx):
    rng = ctx.rng
    fam = Dump('times', ['closed', 'nodes', 'ways', 'relations'])
    scs = []
    special = [0, 1, 999, 1000, -1, -999, -1000, -1001, 951782400000, 951868799999, 1709164800000, 1709251199999, 2147483647000, 2147483648000, 4102444799000, -62135596800000, 253402300799000,
               68169600000, 1078012800000, 1230767999000, 1230768000000]
    for i in range(ctx.scale(10, 80)):
        es = []
        for k, ts in enumerate(rng.sample(special, len(special)) + [rng.randint(-62135596800000, 253402300799999) for _ in range(30)]):
            e = gen.element(rng, 'nwr'[k * 3 // 60], k + 1, 1, dup=False)
            e.update(tags=[], ts=ts, user='u')
            if 'refs' in e:
                e['refs'] = []
            if 'mem' in e:
                e['mem'] = []
            es.append(e)
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=calls(rng, es), what='points in time'))
    ctx.check(fam, scs)


# ---------------------------------------------------------------- C17
def C17(ctx):
    rng = ctx.rng
    written(ctx, 'references', REF, ['mixed'])
    fam = Dump('people', REF)
    scs = []
    for i in range(ctx.scale(60, 600)):
        n = rng.choice([3, 10, 40, 90])
        es = gen.elements(rng, n, versions=True, dup=False)
        nu, nc = rng.choice([1, 2, 5, n]), rng.choice([1, 3, 8, 2 * n])
        owner = {}
        for e in es:
            e['tags'] = e['tags'][:2]
            e.pop('refs', None), e.pop('mem', None)
            if e['t'] == 'w':
                e['refs'] = []
            if e['t'] == 'r':
                e['mem'] = []
            e['cs'] = rng.choice([1, (1 << 31) + 1, 1 << 40])+ rng.randint(0, nc)
            e['uid'] = rng.randint(0, nu) if rng.random() < .4 else owner.setdefault(e['cs'], rng.randint(1, nu))
            e['user'] = rng.choice([f'name {e["uid"]}', 'same', rng.choice(WORDS), f'other {rng.randint(1, 5)}'])
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=calls(rng, tame(es)), what='users and changesets'))
    ctx.check(fam, scs)
    # every text a user name can be, and text everywhere: rows keep their width
    fam = Dump('widths', REF)
    scs = []
    for i in range(ctx.scale(30, 300)):
        es = rich(rng, 20, texts=True)
        for k, e in enumerate(es):
            e['uid'] = 100 + k
            e['user'] = rng.choice(WORDS) if rng.random() < .5 else text(rng)
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=calls(rng, es), what='texts'))
    ctx.check(fam, scs)
    # calls after the dump was closed leave it as it is
    fam = Dump('closed-again', REF + ['after', 'node_tags', 'ways', 'current_nodes', 'current_relation_members'])
    scs = []
    for i in range(ctx.scale(24, 200)):
        ops = calls(rng, rich(rng, rng.choice([0, 1, 5, 20])))
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops += [dict(op='es', es=rich(rng, 1))] if rng.random() < .5 else []
            ops.append(dict(op='close'))
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=ops, goon=1, what='closed more than once'))
    ctx.check(fam, scs)


# ---------------------------------------------------------------- C14
class Trip(Family):
    spec = 'TraceTrip'

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        w, r = ob
        given = [e for op in sc['ops'] for e in op_elements(op)]
        bad = overall(w)
        end = bad if bad != 'ok' else next((outcome(o) for o in w['ops'] if o != 'ok'), 'ok')
        els = []
        if end == 'ok':
            bad = overall(r)
            end = bad if bad != 'ok' else outcome(r['end'])
            els = r.get('els', [])
        key = sc.get('long')
        f = keyed if key else full
        if key:
            # order of tags does not matter
            srt = lambda e: dict(e, tags=sorted(e['tags'])) if 'tags' in e else e
            f = lambda e: keyed(srt(e))
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(sc['dir'], ignore_errors=True)
        return dict(h=[f(e) for e in given], got=[f(e) for e in els], mode='key' if key else 'full', end=end, what='dump written and read back')

    def explain(self, trace, pos):
        g = trace['got'][pos] if pos < len(trace['got']) else trace['end']
        return f'{trace["what"]}: element {pos + 1} of {len(trace["got"])} read, {len(trace["h"])} written: {json.dumps(g)[:400]}'

    @staticmethod
    def mutate(t, rng):
        g = t['got']
        i = rng.randrange(len(g))
        q = rng.random()
        if q < .25 or len(t['h']) == 0:
            del g[i]
        elif q < .5:
            g.insert(i, g[i])
        elif t['mode'] == 'key':
            g[i][3] += 'x'
            if g[i][0] == 4:
                g[i][0] = 3
        else:
            e = g[i]
            if e['t'] == 's':
                del g[i]
            elif e['tags'] and q < .7:
                e['tags'] = e['tags'][:-1]
            else:
                e[rng.choice(['cs', 'uid', 'ver'])] = W(987654321)
        return t


OVER = dict(over=['dir', 'tmp'])                       # directories that have been used before
TOGETHER = dict(together=4)                            # at the same time, in one process


def trip(ctx, fam, scs, **kw):
    if ctx.only and fam.name not in ctx.only:
        return
    w = drive(ctx, scs, **kw)
    r = drive(ctx, [dict(kind='adbr', dir=s['dir'], tmp=s['dir'] + '.tmp') for s in scs], pin=2, **kw)
    for s in scs:
        shutil.rmtree(s['dir'] + '.tmp', ignore_errors=True)
    ctx.check(fam, scs, obs=list(zip(w, r)))


def C14(ctx):
    rng = ctx.rng
    ctx.model('DumpJoinMC')
    hs = histories(ctx, ['n', 'w', 'r', 'mixed'])
    scs = []

    def add(es, **kw):
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=calls(rng, es), **kw))
    for es in joined(hs, rng, 50):
        add(es)
    for h in rng.sample(hs, min(len(hs), ctx.scale(60, 600))):
        add(concrete(h, rng))
    trip(ctx, Trip('histories'), scs)
    scs = []
    for i in range(ctx.scale(220, 2500)):
        n = rng.choice([0, 1, 2, 5, 10, 20, 40])
        add(rich(rng, n, texts=rng.random() < .4, vis=rng.choice([None, .5])))
    k = len(scs) // 4
    trip(ctx, Trip('roundtrip'), scs[:2 * k])
    trip(ctx, Trip('roundtrip-replaced'), scs[2 * k:3 * k], **OVER)
    trip(ctx, Trip('roundtrip-together'), scs[3 * k:], **TOGETHER)
    # long histories: more than one part for the sort of the reader (10 MB), many users and changesets
    scs = []

    def runs(*rs):
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=[dict(op='es', runs=list(rs)), dict(op='close')], long=1))
    # (steps of 3, and the same remainder: in a run, the user of a changeset depends on it)
    runs(dict(t='n', first=1, n=ctx.scale(130000, 400000), step=3))
    runs(dict(t='n', first=1, n=300, step=3, pad=9000), dict(t='w', first=1, n=1200, step=6, pad=12000), dict(t='r', first=4, n=300, step=3, pad=50000))
    runs(dict(t='n', first=2, n=20000, step=3), dict(t='w', first=1 << 33, n=15000, step=3), dict(t='r', first=8, n=10000, step=9))
    if ctx.thorough:
        runs(dict(t='w', first=1, n=350000, step=3), dict(t='r', first=1, n=250000, step=6))
    es = []
    for k in range(ctx.scale(9000, 60000)):            # as many users and changesets as elements
        t = 'nwr'[k * 3 // ctx.scale(9000, 60000)]
        e = dict(t=t, id=k + 1, ver=1 + k % 3, ts=1000 * (10**9 + k), cs=10**9 - k, uid=1 + (k * 7919) % 100003, user=f'user {1 + (k * 7919) % 100003}', vis=True, tags=[['k', str(k)]])
        e.update(dict(lat=100 * k, lon=-100 * k) if t == 'n' else dict(refs=[k, 1, k]) if t == 'w' else dict(mem=[['w', k, 'r']]))
        es.append(e)
    scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=[dict(op='es', es=es), dict(op='close')], long=1))
    es = []
    for k in range(ctx.scale(180, 900)):               # more than 10 MB of way nodes and members
        es.append(dict(t='w', id=k + 1, ver=1, ts=0, cs=1, uid=1, user='u', vis=True, tags=[], refs=[(1 << 40) + (i * 7919 + k) % 100003 for i in range(2000)]))
    for k in range(ctx.scale(120, 600)):
        es.append(dict(t='r', id=k + 1, ver=1, ts=0, cs=1, uid=1, user='u', vis=True, tags=[], mem=[['nwr'[(i * i + k) % 3], (1 << 40) + (i * 7919 + k) % 100003, f'role {i * 31 % 97}'] for i in range(2200)]))
    scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=[dict(op='es', es=es), dict(op='close')], long=1))
    es = [dict(t='w', id=1, ver=1, ts=0, cs=1, uid=1, user='u', vis=True, tags=[['k', 'v']], refs=[(i * 7919) % 40009 + 1 for i in range(33000)]),
          dict(t='r', id=1, ver=1, ts=0, cs=1, uid=1, user='u', vis=True, tags=[], mem=[['nwr'[i % 3], (i * 7919) % 40009 + 1, 'x' if i % 5 else ''] for i in range(33000)])]
    scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=[dict(op='es', es=es), dict(op='close')], long=1))
    trip(ctx, Trip('long'), scs)


# ---------------------------------------------------------------- C15
class DumpRead(Family):
    spec = 'TraceDumpRead'

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        bad = overall(ob)
        ty = typed(DumpFiles(sc['dir']))
        tables = {k: ty[k] for k in HIST[1:] + ['users', 'changesets']}
        t = dict(tables=tables, got=[full(e) for e in ob.get('els', [])], end=bad if bad != 'ok' else outcome(ob['end']), what='dump of another program read')
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(sc['dir'], ignore_errors=True)
        return t

    def explain(self, trace, pos):
        g = trace['got'][pos] if pos < len(trace['got']) else trace['end']
        return f'{trace["what"]}: element {pos + 1} of {len(trace["got"])} read: {json.dumps(g)[:400]}'

    @staticmethod
    def mutate(t, rng):
        g = t['got']
        if not g:
            return None
        i = rng.randrange(len(g))
        e = g[i]
        if e['t'] == 's' or rng.random() < .3:
            del g[i]
        elif e.get('refs') and rng.random() < .7:
            e['refs'].append(e['refs'][0])
        elif e['tags'] and rng.random() < .7:
            e['tags'] = e['tags'][1:]
        else:
            e[rng.choice(['cs', 'uid', 'ver'])] = W(987654321)
        return t


def coherent(es):
    """One user for each changeset, one name for each user, as the database has it."""
    uid, name = {}, {}
    for e in es:
        e['uid'] = uid.setdefault(e['cs'], e['uid'])
        e['user'] = name.setdefault(e['uid'], e['user'])
    return es


def other_dump(ctx, es, **kw):
    d = ctx.path('.dump')
    apidb.write_dump(d, coherent(es), ctx.rng, **kw)
    return dict(kind='adbr', dir=d, tmp=d + '.tmp')


def read_dumps(ctx, fam, scs, **kw):
    if ctx.only and fam.name not in ctx.only:
        return
    obs = drive(ctx, scs, pin=2, **kw)
    for s in scs:
        shutil.rmtree(s['tmp'], ignore_errors=True)
    ctx.check(fam, scs, obs=obs)


def C15(ctx):
    rng = ctx.rng
    ctx.model('DumpJoinMC')
    if ctx.thorough:
        ctx.model('DumpJoinMC', 'DumpJoinMC3.cfg')
    hs = histories(ctx, ['n', 'w', 'r', 'mixed'])
    scs = [other_dump(ctx, es, order=rng.choice(['shuffle', 'plain', 'reverse'])) for es in joined(hs, rng, 50)]
    for h in rng.sample(hs, min(len(hs), ctx.scale(60, 600))):
        scs.append(other_dump(ctx, concrete(h, rng)))
    read_dumps(ctx, DumpRead('histories'), scs)
    scs = []
    for i in range(ctx.scale(260, 3000)):
        es = rich(rng, rng.choice([0, 1, 2, 5, 10, 20, 40]), texts=rng.random() < .2)
        scs.append(other_dump(ctx, es, odd=rng.random() < .2, order=rng.choice(['shuffle', 'shuffle', 'plain', 'reverse']), extra=rng.random() < .6))
    k = len(scs) // 4
    read_dumps(ctx, DumpRead('dumps'), scs[:2 * k])
    read_dumps(ctx, DumpRead('dumps-replaced'), scs[2 * k:3 * k], **OVER)
    read_dumps(ctx, DumpRead('dumps-together'), scs[3 * k:], **TOGETHER)
    # keys that agree in part: ids and versions of one, two and more digits, children in every order of sequence
    scs = []
    for i in range(ctx.scale(40, 400)):
        es = []
        base = rng.choice([[1, 2, 9, 10, 11, 12, 21, 99, 100, 101, 110, 111, 112], [1 << 31, (1 << 31) + 1, 1 << 32, 1 << 40, (1 << 62) + 3]])
        for t in 'nwr':
            for id in sorted(rng.sample(base, rng.randint(1, 4))):
                for v in sorted(rng.sample([1, 2, 3, 9, 10, 11, 12, 20, 21, 100, 101], rng.randint(1, 4))):
                    e = gen.element(rng, t, id, v, neg=False, dup=False)
                    e['tags'] = [['k', f'{t}{id}/{v}'], ['a', 'b']][:rng.choice([0, 0, 1, 2])]
                    if t == 'w':
                        e['refs'] = [rng.randint(1, 99) for _ in range(rng.choice([0, 0, 1, 3, 12, 25]))]
                    if t == 'r':
                        e['mem'] = [[rng.choice('nwr'), rng.randint(1, 99), rng.choice(gen.ROLES)] for _ in range(rng.choice([0, 0, 1, 3, 12, 25]))]
                    es.append(e)
        scs.append(other_dump(ctx, tame(es), order=rng.choice(['shuffle', 'reverse'])))
    read_dumps(ctx, DumpRead('keys'), scs)


# ---------------------------------------------------------------- C16
class Copy(Family):
    spec = 'TraceCopy'

    def __init__(self, name):
        self.name = name

    def traces(self, d, els, dir, end):
        out = []

        def one(table, cols, want):
            names, f = d.tables.get('public.' + table, ([], ''))
            x = d.lines('public.' + table)
            if x is None or not all(c in names for c in cols):
                out.append(dict(lines=[], cols=[], width=0, dir=dir, want=[], end='missing', table=table, what='texts'))
                return
            out.append(dict(lines=[list(l) for l in x[0]], cols=[names.index(c) + 1 for c in cols], width=len(names), dir=dir,
                            want=[[list(s.encode()) for s in w] for w in want], end=end, table=table, what='texts ' + ('written' if dir == 'write' else 'read')))
        for t, k in (('n', 'node'), ('w', 'way'), ('r', 'relation')):
            one(k + '_tags', ['k', 'v'], [kv for e in els if e['t'] == t for kv in e['tags']])
        one('relation_members', ['member_role'], [[m[2]] for e in els if e['t'] == 'r' for m in e['mem']])
        users = {e['uid']: e['user'] for e in els if e['t'] != 's'}
        one('users', ['display_name'], [[u] for u in users.values()])
        if dir == 'write':
            live = [e for e, n in zip(els, els[1:] + [None]) if e['vis'] and (n is None or (n['t'], n['id']) != (e['t'], e['id']))]
            for t, k in (('n', 'node'), ('w', 'way'), ('r', 'relation')):
                one(f'current_{k}_tags', ['k', 'v'], [kv for e in live if e['t'] == t for kv in e['tags']])
            one('current_relation_members', ['member_role'], [[m[2]] for e in live if e['t'] == 'r' for m in e['mem']])
        return [t for t in out if t['lines'] or t['want'] or t['end'] != 'ok']

    def trace(self, sc, ob):
        bad = overall(ob)
        d = DumpFiles(sc['dir'])
        if sc['kind'] == 'adbw':
            end = bad if bad != 'ok' else next((outcome(o) for o in ob['ops'] if o != 'ok'), 'ok')
            r = self.traces(d, [e for op in sc['ops'] for e in op_elements(op)], 'write', end)
        else:
            r = self.traces(d, ob.get('els', []), 'read', bad if bad != 'ok' else outcome(ob['end']))
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(sc['dir'], ignore_errors=True)
        return r

    def explain(self, trace, pos):
        n = len(trace['want'])
        x = [bytes(c) for c in trace['want'][pos]] if pos < n else bytes(trace['lines'][pos - n]) if pos < n + len(trace['lines']) else trace['end']
        return f'{trace["what"]}, table {trace["table"]}: {"text given or returned" if pos < n else "row of the file"} without counterpart: {x!r}'[:500]

    @staticmethod
    def mutate(t, rng):
        if not t['want']:
            return None
        i = rng.randrange(len(t['want']))
        c = rng.choice(t['want'][i])
        if c and rng.random() < .5:
            c.pop()
        else:
            c.append(92)
        if rng.random() < .3:
            t['lines'][rng.randrange(len(t['lines']))].append(9)
        return t


def spread(rng, texts, per=20, raw=None, tables='nwr'):
    """Elements that carry these texts as tag values, roles and user names."""
    es = []
    for k in range(0, len(texts), per):
        part = texts[k:k + per]
        t = rng.choice(tables)
        e = dict(t=t, id=k + 1, ver=1, ts=0, cs=k + 1, uid=k + 1, user=rng.choice(part), vis=True, lat=0, lon=0)
        e['tags'] = [[f'k{i}', s] for i, s in enumerate(part)]
        if t == 'w':
            e['refs'] = []
        if t == 'r':
            e['mem'] = [['n', 1, s] for s in part]
        es.append(e)
    for k in range(0, len(texts), 40):                  # as keys
        e = dict(t='w', id=k + 1000001, ver=1, ts=0, cs=k + 1, uid=k + 1, user='u', vis=True, refs=[], tags=[[s, 'v'] for s in dict.fromkeys(texts[k:k + 40])])
        es.append(e)
    for k, s in enumerate(texts[:60]):
        es.append(dict(t='n', id=2000001 + k, ver=1, ts=0, cs=10**6 + k, uid=10**6 + k, user=s, vis=True, lat=0, lon=0, tags=[]))
    es.sort(key=lambda e: ('nwr'.index(e['t']), e['id']))
    return coherent(es)


def words(alpha, n):
    r = ['']
    out = []
    for _ in range(n):
        r = [w + a for w in r for a in alpha]
        out += r
    return out


def C16(ctx):
    rng = ctx.rng
    ctx.model('CopyTextMC')
    # written: all short texts over the characters that matter, all control characters, random ones
    texts = [''] + words(['\\', 'N', '.', 'n', '\t', '\n', '1', 'x'], ctx.scale(3, 4)) + [chr(i) for i in range(1, 256)] + ['a' + chr(i) for i in range(1, 160)] + WORDS
    texts += ['\\' + chr(i) for i in range(1, 128)]
    texts += [text(rng) for _ in range(ctx.scale(1500, 20000))]
    rng.shuffle(texts)
    scs = []
    for i in range(0, len(texts), 200):
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=calls(rng, spread(rng, texts[i:i + 200]))))
    for i in range(ctx.scale(40, 300)):
        scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=calls(rng, rich(rng, 12, texts=True))))
    ctx.check(Copy('written'), scs)
    # read: all short cells over the characters that matter
    cells = []
    alpha = [b'\\', b'N', b'.', b'n', b'1', b'7', b'x', b'a'] if not ctx.thorough else [b'\\', b'N', b'.', b'n', b'0', b'1', b'7', b'8', b'x', b'a', b'g']
    level = [b'']
    for _ in range(4):
        level = [w + a for w in level for a in alpha]
        cells += level
    cells += [b'\\' + bytes([i]) for i in range(1, 128) if i not in (9, 10, 13)] + [b'\\%o' % i for i in range(1, 128)] + [b'\\%03o' % i for i in range(1, 128)]
    cells += [b'\\x%x' % i for i in range(1, 128)] + [b'\\x%02X' % i for i in range(1, 128)] + [b'\\303\\251', b'\\xc3\\xa9', b'\\xC3\\251z', b'a\\xe6\\x97\\xa5b', b'\\703\\651']
    cells += [apidb.encode_odd(text(rng), rng) for _ in range(ctx.scale(1500, 20000))]
    ok = []
    for c in cells:
        if c == b'\\N' or not_a_cell(c):
            continue
        try:
            if '\0' in apidb.decode(c):
                continue
        except UnicodeDecodeError:
            continue
        ok.append(c)
    if not ctx.thorough:
        short = [c for c in ok if len(c) < 4]
        rest = [c for c in ok if len(c) >= 4]
        ok = short + rng.sample(rest, min(len(rest), 4000))
    rng.shuffle(ok)
    scs = []
    for i in range(0, len(ok), 250):
        scs.append(raw_dump(ctx, ok[i:i + 250]))
    for i in range(ctx.scale(40, 400)):
        es = rich(rng, 12, texts=True)
        scs.append(other_dump(ctx, es, odd=True, spare=False))
    read_dumps(ctx, Copy('read'), scs)


def not_a_cell(c):
    """A backslash without anything after it, or one before a point, which is for the end marker only:
    PostgreSQL rejects both within data."""
    i = 0
    while i < len(c):
        if c[i] == 92:
            if i + 1 == len(c) or c[i + 1] == 46:
                return True
            i += 1
        i += 1
    return False


def raw_dump(ctx, cells):
    """A dump with these cells as they are; keys are told apart by what they denote."""
    rng = ctx.rng
    texts = {}
    for c in cells:
        texts.setdefault(apidb.decode(c), []).append(c)
    vals = [(t, c) for t, cs in texts.items() for c in cs]
    es = spread(rng, [t for t, _ in vals])
    d = ctx.path('.dump')
    apidb.write_dump(d, es, rng, odd=texts, spare=False, extra=False)
    return dict(kind='adbr', dir=d, tmp=d + '.tmp')


# ---------------------------------------------------------------- C20
def disk_full(ctx):
    rng = ctx.rng
    ctx.model('ApidbWriterMC', 'ApidbWriterMC_faults.cfg')
    fam = Dump('dump-disk-full', ['closed'])
    if ctx.only and fam.name not in ctx.only:
        return
    # one file on a full disk
    ref = dict(kind='adbw', dir=ctx.path('.dump'), ops=[dict(op='es', es=rich(rng, 12)), dict(op='close')])
    drive(ctx, [ref])
    names = sorted(os.listdir(ref['dir']))
    scs = []
    hist = [tame(rich(rng, n)) for n in (0, 6, 20)]
    for es in hist[:ctx.scale(2, 3)]:
        for n in names:
            d = ctx.path('.dump')
            os.makedirs(d)
            os.symlink('/dev/full', os.path.join(d, n))
            scs.append(dict(kind='adbw', dir=d, ops=calls(rng, es), what=f'{n} on a full disk', steps=['noticed'], fault=1))
    # files cannot be created
    for n in rng.sample(names, min(len(names), 10)):
        d = ctx.path('.dump')
        os.makedirs(os.path.join(d, n))
        scs.append(dict(kind='adbw', dir=d, ops=calls(rng, hist[1]), what=f'{n} is a directory', steps=['noticed'], fault=1))
    # no file can grow beyond a size
    for es in hist[1:] + [[e for e in gen_long(rng, 60)]]:
        for lim in [0, 1, 2, 3, 4, 8, 16, 50, 100, 200, 400, 800, 1500, 3000, 5000, 8191, 8192, 8193, 20000, 100000, 157000, 300000, 10**7]:
            scs.append(dict(kind='adbw', dir=ctx.path('.dump'), ops=calls(rng, es), fsize=lim, what=f'no file larger than {lim}', steps=ALL, fault=1))
    ctx.check(fam, scs)


def gen_long(rng, n):
    es = []
    for t in 'nwr':
        for i in range(1, n + 1):
            e = dict(t=t, id=i, ver=1, ts=1000 * i, cs=i, uid=i, user=f'u{i}', vis=True, tags=[['k', 'v' * 200]], lat=0, lon=0)
            if t == 'w':
                e['refs'] = [1, 2, 3]
            if t == 'r':
                e['mem'] = [['n', 1, 'r']]
            es.append(e)
    return es
