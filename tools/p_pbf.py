"""Properties of reading and writing PBF files sequentially."""
import json, os, re
import gen, pbf
from common import Family, ToolError, W, clip, drive, hx, named
from conv import *


# ---------------------------------------------------------------- mutation of observations
def bump(w, rng):
    w[-1] = (w[-1] + 1) % (1 << 15)


def mutate_elem(e, rng):
    """Corrupt one attribute of a full element record."""
    ks = [k for k in ('id', 'ver', 'cs', 'uid', 'user', 'vis', 'tags', 'refs', 'mem', 'lat') if k in e]
    k = rng.choice(ks)
    if k in ('id', 'ver', 'cs', 'uid'):
        bump(e[k], rng)
    elif k == 'lat':
        e[k][-2] = (e[k][-2] + 1) % (1 << 15)
    elif k == 'user':
        e[k] += '21'
    elif k == 'vis':
        e[k] = not e[k]
    elif e[k]:
        i = rng.randrange(len(e[k]))
        if rng.random() < .5:
            del e[k][i]
        elif k == 'refs':
            bump(e[k][i], rng)
        elif k == 'mem':
            e[k][i][2] += '21'
        else:
            e[k][i][rng.randrange(2)] += '21'
    else:
        e[k] = [W(1)] if k == 'refs' else [['n', W(1), '']] if k == 'mem' else [['6b', '76']]


def mutate_list(es, rng, full=True):
    """Corrupt a list of ranked elements."""
    q = rng.random()
    i = rng.randrange(len(es))
    if q < .3:
        del es[i]
    elif q < .5:
        es.insert(i, json.loads(json.dumps(es[i])))
    elif q < .7 and len(es) > 1 and es[i - 1] != es[i]:
        es[i - 1], es[i] = es[i], es[i - 1]
    elif full:
        mutate_elem(es[i][1], rng)
    else:
        es[i][3] += 'x'


# ---------------------------------------------------------------- C01
class RoundTrip(Family):
    name, spec = 'roundtrip', 'TraceSeq'

    def trace(self, sc, ob):
        w, r = ob if isinstance(ob, list) else (ob, None)
        return seq_trace(sc, w, r)

    @staticmethod
    def mutate(t, rng):
        es = [e for e in t['ev'] if e['k'] == 'read'][-1]['es']
        if not es:
            return None
        mutate_list(es, rng, t['form'] == 'full')
        return t


def calls_of(sc, w, conv):
    ev = []
    res = (w or {}).get('ops') or (w or {}).get('partial') or []
    for i, op in enumerate(sc['ops']):
        if i >= len(res) and overall(w) == 'ok' and res and outcome(res[-1]) != 'ok':
            break                                       # the writer was not used after a failure
        r = outcome(res[i]) if i < len(res) else overall(w) if overall(w) != 'ok' else 'none'
        if op['op'] == 'hdr':
            ev.append(dict(k='hdr', r=r))
        elif op['op'] == 'close':
            ev.append(dict(k='close', r=r))
        else:
            ev.append(dict(k='call', es=[conv(e) for e in op_elements(op)], r=r))
        if i >= len(res):
            break
    return ev


def is_small(sc, given):
    return len(given) <= 300 and not any('run' in op and op['run'].get('pad') for op in sc['ops'])


def seq_trace(sc, w, r):
    """Trace of the writer calls and of what the library reads back."""
    given = [e for op in sc['ops'] for e in op_elements(op)]
    form = 'full' if is_small(sc, given) else 'key'
    els = (r or {}).get('els', [])
    if form == 'full':
        conv = ranked
        rconv = ranked
    else:
        ids = rename(given, els)
        conv = rconv = lambda e: keyed(e, ids)
    ev = calls_of(sc, w, conv)
    if r is not None:
        ev.append(dict(k='read', es=[rconv(e) for e in els], r=outcome(r.get('end')) if 'end' in r else overall(r)))
    return dict(form=form, faulty=False, comp=sc.get('comp', 'zlib'), ev=ev, what='write and read back')


def two_stage(ctx, fam, scenarios, second, jobs=None, **kw):
    """Run writer scenarios, then reader scenarios on their files, then validate both together."""
    from common import drive
    if ctx.only and fam.name not in ctx.only:
        return
    w = drive(ctx, scenarios, jobs, **kw)
    r = drive(ctx, [second(s) for s in scenarios], jobs, **kw)
    ctx.check(fam, scenarios, obs=list(map(list, zip(w, r))))


def writer_scenarios(ctx, n, big=True):
    rng = ctx.rng
    out = []

    def add(ops, **kw):
        s = dict(kind='pbfw', path=ctx.path('.pbf'), comp=rng.choice(['raw', 'zlib']), ops=[dict(op='hdr')] + ops + [dict(op='close')] * rng.choice([1, 1, 1, 1, 2, 3]))
        s.update(kw)
        out.append(s)
    for c in ('raw', 'zlib'):
        add([], comp=c)
    for t in 'nwr':
        add([dict(op='e', e=gen.element(rng, t, 5))])
    for ts in ('nw', 'nr', 'wr', 'nwr'):
        add([dict(op='es', es=[gen.element(rng, t, 1) for t in ts])])
    for i in range(n):
        k = rng.choice([1, 2, 3, 5, 8, 13, 20, 30])
        es = gen.elements(rng, k, versions=rng.random() < .4)
        for e in es:
            # an element that was read without metadata
            if rng.random() < .06:
                e.update(rng.choice([dict(uid=-1), dict(cs=-1), dict(uid=-1, cs=-1, user=''), dict(ver=-1)]))
        add(gen.split_calls(rng, es))
    # extreme values next to each other in one delta coded column
    for a, b in ((0, (1 << 62) - 1), (-(1 << 62), (1 << 62) - 1), ((1 << 62) - 1, (1 << 62) - 1), (-(1 << 62), -(1 << 62) + 1)):
        es = []
        for t in 'nwr':
            for i, v in enumerate(sorted({a, b})):
                e = gen.element(rng, t, v, neg=False)
                e['cs'] = b if i else a
                if t == 'w':
                    e['refs'] = [a, b, a]
                if t == 'r':
                    e['mem'] = [['n', a, 'x'], ['r', b, ''], ['w', a, 'x']]
                es.append(e)
        add(gen.split_calls(rng, es))
    # string tables across the varint boundaries; one element with very many tags, way nodes, members
    for m in (127, 128, 129, 300):
        es = [dict(gen.element(rng, t, 3), tags=[[f'{t}k{i}', f'{t}v{i}'] for i in range(m)]) for t in 'nwr']
        add([dict(op='es', es=es)])
    es = [gen.element(rng, 'n', 1)]
    es.append(dict(gen.element(rng, 'w', 1), refs=[rng.choice([7, 8, 9]) * k for k in range(2000)]))
    es.append(dict(gen.element(rng, 'r', 1), mem=[[rng.choice('nwr'), rng.randint(-99, 1 << 34), rng.choice(gen.ROLES)] for k in range(1500)]))
    add([dict(op='es', es=es)])
    return out


def big_scenarios(ctx, lens):
    """Runs around the block size for every type (from the accumulator model), as single writes or lists."""
    rng = ctx.rng
    out = []
    for cs in lens:
        ops = [dict(op='hdr')]
        for t, c in zip('nwr', cs):
            first = rng.choice([1, -50, 5_000_000_000])
            step = rng.choice([1, 3])
            left = c
            while left > 0:
                k = left if rng.random() < .6 else min(left, rng.choice([1, 7999, 8000, 8001, 100]))
                ops.append(dict(op=rng.choice(['each', 'es']), run=dict(t=t, first=first, n=k, step=step)))
                first += k * step
                left -= k
        ops.append(dict(op='close'))
        out.append(dict(kind='pbfw', path=ctx.path('.pbf'), comp=rng.choice(['raw', 'zlib']), ops=ops))
    return out


def huge_runs(ctx):
    """Elements of thousands to millions of bytes: a block of 8000 of them does not fit in a blob."""
    r = lambda t, n, pad, first=1: dict(t=t, first=first, n=n, pad=pad, fresh=1)
    out = [[r('w', 8000, 4500)], [r('n', 3, 10), r('n', 1, 20_000_000, 4), r('n', 1, 20_000_000, 5), r('n', 7, 10, 6), r('r', 1, 33_000_000)],
           [r('n', 1, 33_553_000), r('w', 1, 33_000_000), r('w', 300, 5, 2), r('w', 1, 33_000_000, 302)]]
    if ctx.thorough:
        out += [[r(t, 8000, p)] for t in 'nwr' for p in (4150, 4190, 4196, 8300, 12000)] + [[r('w', n, 40_000_000 // n + n % 7)] for n in (2, 3, 5, 17, 100, 7999, 8001)]
    return out


def huge_scenarios(ctx):
    return [dict(kind='pbfw', path=ctx.path('.pbf'), comp=c, ops=[dict(op='hdr')] + [dict(op=ctx.rng.choice(['each', 'es']), run=r) for r in rs] + [dict(op='close')])
            for rs in huge_runs(ctx) for c in (('raw', 'zlib') if ctx.thorough else (ctx.rng.choice(['raw', 'zlib']),))]


BIG_QUICK = [(8000, 0, 0), (8001, 0, 1), (7999, 1, 0), (16000, 8000, 1), (0, 8001, 7999), (0, 0, 16001), (1, 16000, 0), (8000, 8000, 8000)]


def big_lens(ctx):
    if not ctx.thorough:
        return BIG_QUICK
    q = [0, 1, 7999, 8000, 8001, 16000]
    return [(a, b, c) for a in q for b in q for c in q]


def reader(sc):
    return dict(kind='pbfr', path=sc['path'])


def rm(ctx, scenarios):
    for s in scenarios:
        for k in ('path', 'out'):
            if k in s and os.path.exists(s[k]):
                os.unlink(s[k])


def C01(ctx):
    ctx.model('SeqWriterMC')
    ctx.model('PbfFormatMC')
    ctx.model('WideMC')
    scs = writer_scenarios(ctx, ctx.scale(220, 2500))
    two_stage(ctx, RoundTrip(), scs, reader)
    rm(ctx, scs)
    # over files that exist, the same path again and again in one process
    scs = ctx.rng.sample(scs, ctx.scale(80, 800))
    two_stage(ctx, named(RoundTrip(), 'roundtrip-replaced'), scs, reader, over=['path'])
    rm(ctx, scs)
    # several writers, and several readers, at work at the same time in one process
    two_stage(ctx, named(RoundTrip(), 'roundtrip-together'), scs, reader, together=4)
    rm(ctx, scs)
    scs = big_scenarios(ctx, big_lens(ctx))
    two_stage(ctx, named(RoundTrip(), 'roundtrip-big'), scs, reader)
    rm(ctx, scs)
    for s in huge_scenarios(ctx):
        two_stage(ctx, named(RoundTrip(), 'roundtrip-huge'), [s], reader)
        rm(ctx, [s])


# ---------------------------------------------------------------- C02
def wide_info(i):
    return dict(ver=[W(x) for x in i['ver']], ts=[W(x) for x in i['ts']], cs=[W(x) for x in i['cs']], uid=[W(x) for x in i['uid']], sid=i['sid'], vis=i['vis'])


def wide_block(b):
    """The wire structure in the form of PbfFormat.tla."""
    ws = lambda l: [W(x) for x in l]
    gs = []
    for g in b['groups']:
        pl = lambda x: dict(id=W(x['id']), keys=x['keys'], vals=x['vals'], info=[wide_info(i) for i in x['info']])
        gs.append(dict(
            dense=[dict(id=ws(d['id']), lat=ws(d['lat']), lon=ws(d['lon']), kv=d['kv'], info=[wide_info(i) for i in d['info']]) for d in g['dense']],
            nodes=[dict(pl(x), lat=W(x['lat']), lon=W(x['lon'])) for x in g['nodes']],
            ways=[dict(pl(x), refs=ws(x['refs'])) for x in g['ways']],
            rels=[dict(pl(x), memids=ws(x['memids']), types=x['types'], roles=x['roles']) for x in g['rels']]))
    return dict(strs=[s.hex() for s in b['strs']], gran=ws(b['gran']), dgran=ws(b['dgran']), lato=ws(b['lato']), lono=ws(b['lono']), groups=gs)


def parse_file(path):
    """(frames, parsed data blocks, error)"""
    try:
        fr = pbf.frames(open(path, 'rb').read())
        return fr, [pbf.parse_block(f['data']) for f in fr if f['type'] == 'OSMData'], None
    except (pbf.Bad, IndexError, OSError) as e:
        return getattr(e, 'good', []), [], str(e)


class Wire(Family):
    """Content of a written file by the published format, decoded by the specification."""
    name, spec = 'wire', 'TraceWire'

    def trace(self, sc, ob):
        # (a writer may be used after it was closed, in vain)
        n = [op['op'] for op in sc['ops']].index('close')
        es = [e for op in sc['ops'][:n] for e in op_elements(op) if e['t'] != 's']
        fr, bl, err = parse_file(sc['path'])
        return dict(mode='written', blocks=[wide_block(b) for b in bl], es=[full(e) for e in es], counts=[], end=err or overall(ob), what='file decoded by the format')

    @staticmethod
    def mutate(t, rng):
        if not t['es']:
            return None
        es = [[0, e] for e in t['es']]
        mutate_list(es, rng)
        t['es'] = [e for _, e in es]
        return t


def frame_list(fr):
    return [dict(type=f['type'], hlen=f['hlen'], dsize=f['dsize'], actual=f['end'] - f['body'], kind=f['kind'], rawsize=f['rawsize'], size=f['size']) for f in fr]


class Frames(Family):
    """Structure of a written file: framing, block types and sizes, elements of blocks."""
    name, spec = 'structure', 'TraceSeq'

    def trace(self, sc, ob):
        given = [e for op in sc['ops'] for e in op_elements(op)]
        fr, bl, err = parse_file(sc['path'])
        try:
            blocks = [pbf.decode_block(b) for b in bl]
        except (IndexError, KeyError, TypeError) as e:
            blocks, err = [], f'decode: {e!r}'
        small = is_small(sc, given)
        ids = rename(given, *blocks)
        conv = (lambda e: ranked(fill(e))) if small else (lambda e: keyed(e, ids))
        ev = calls_of(sc, ob, ranked if small else conv)
        ev.append(dict(k='disk', blocks=[[conv(e) for e in b] for b in blocks], tail='clean' if err is None else 'partial'))
        ev.append(dict(k='frames', fr=frame_list(fr)))
        return dict(form='full' if small else 'key', faulty=sc.get('faulty', False), comp=sc['comp'], ev=ev, what=f'structure of the file{"" if err is None else ": " + err}')

    @staticmethod
    def mutate(t, rng):
        d = t['ev'][-2]
        q = rng.random()
        bs = [b for b in d['blocks'] if b]
        if q < .3 and len(t['ev'][-1]['fr']) > 1:
            f = rng.choice(t['ev'][-1]['fr'])
            k = rng.choice(['type', 'actual', 'size'])
            f[k] = 'OSMHeade' if k == 'type' else f[k] + 1
        elif bs:
            mutate_list(rng.choice(bs), rng, t['form'] == 'full')
        else:
            return None
        return t


def fill(e):
    """Metadata the file does not have stands out."""
    return dict(e, **{k: -77 for k in ('ver', 'ts', 'cs', 'uid') if e[k] is None})


def C02(ctx):
    ctx.model('PbfFormatMC')
    ctx.model('SeqWriterMC')
    ctx.model('BlobSplitMC')
    scs = writer_scenarios(ctx, ctx.scale(150, 1500))
    obs = ctx.observe(scs, (Wire, Frames))
    ctx.check(Wire(), scs, obs=obs)
    ctx.check(Frames(), scs, obs=obs)
    rm(ctx, scs)
    for kw, name in ((dict(over=['path']), 'replaced'), (dict(together=4), 'together')):
        part = ctx.rng.sample(scs, ctx.scale(40, 400))
        fams = [named(Wire(), 'wire-' + name), named(Frames(), 'structure-' + name)]
        obs = ctx.observe(part, fams, **kw)
        for f in fams:
            ctx.check(f, part, obs=obs)
        rm(ctx, part)
    scs = big_scenarios(ctx, big_lens(ctx))
    ctx.check(named(Frames(), 'structure-big'), scs)
    rm(ctx, scs)
    for s in huge_scenarios(ctx):
        ctx.check(named(Frames(), 'structure-huge'), [s])
        rm(ctx, [s])
    # an element that does not fit in a blob: an error, or at least no blob above the limit
    r = lambda t, n, pad, first=1: dict(op=ctx.rng.choice(['each', 'es']), run=dict(t=t, first=first, n=n, pad=pad, fresh=1))
    s = dict(kind='pbfw', path=ctx.path('.pbf'), comp=ctx.rng.choice(['raw', 'zlib']), faulty=True,
             ops=[dict(op='hdr'), r('n', 5, 3), r('w', 3, 3), r('w', 1, 34_000_000, 4), r('w', 9, 3, 5), r('r', 4, 3), dict(op='close')])
    fam = named(Frames(), 'structure-refused')
    fam.mutate = lambda t, rng: None                   # (nothing is promised after the error)
    ctx.check(fam, [s])
    rm(ctx, [s])
    import p_par
    fam = Wire()
    fam.name = 'parallel-wire'
    p_par.structure(ctx, fam)


# ---------------------------------------------------------------- C03
def varied_file(rng, path, size=None, multi=True, meta=False, odd=None):
    """A valid PBF file with the freedoms of the format. Returns the number of data blocks."""
    odd = (.3 if rng.random() < .3 else 0) if odd is None else odd
    out = pbf.some_foreign(rng, odd) + pbf.frame('OSMHeader', pbf.enc_header(opts=['Sort.Type_then_ID'] if rng.random() < .5 else []), rng.choice(['raw', 'zlib']))
    out += pbf.some_foreign(rng, odd)
    nb = rng.choice([0, 1, 1, 2, 3, 5]) if size is None else size
    for _ in range(nb):
        plain = rng.random() < .4
        gran = rng.choice([100, 1, 10, 1000, 100000, 37, 2147483]) if not plain else 100
        dgran = rng.choice([1000, 1, 100, 60000]) if not plain else 1000
        lato = rng.choice([0, 0, 1, -12345, 45_000_000_000, -90_000_000_000]) if not plain else 0
        lono = rng.choice([0, 0, 99, -180_000_000_000, 12_345_678_901]) if not plain else 0
        enc = pbf.Enc(rng, gran, dgran, lato, lono, unpacked=rng.random() < .25, shuffle=rng.random() < .3, dup=rng.random() < .3,
                      defaults=rng.random() < .4, noise=rng.random() < .25)
        groups = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3]) if multi else 1):
            k = rng.choice(['dense', 'dense', 'nodes', 'ways', 'rels'])
            n = rng.choice([0, 1, 2, 5, 12])
            metas = ['ver', 'ts', 'cs', 'uid', 'user', 'vis']
            q = 0 if meta else rng.random()
            keep = metas if q < .5 else [] if q < .7 else metas[:5] if q < .8 else [m for m in metas if rng.random() < .6]
            es = []
            for _ in range(n):
                e = gen.element(rng, dict(dense='n', nodes='n', ways='w', rels='r')[k], rng.choice(gen.ids(rng, 3)), neg=True)
                e['ts'] = e['ts'] // dgran * dgran
                if e['t'] == 'n':
                    lim = [90_000_000_000, 180_000_000_000]
                    for c, o, l in (('lat', lato, lim[0]), ('lon', lono, lim[1])):
                        e[c] = o + (e[c] - o) // gran * gran
                for m in metas:
                    # plain elements choose their optional fields one by one, dense columns as a whole
                    if m not in keep or (not meta and k != 'dense' and rng.random() < .1):
                        e[m] = None
                es.append(e)
            groups.append((k, es))
        out += pbf.frame('OSMData', enc.block(groups), rng.choice(['raw', 'zlib']), rawsize=rng.choice([True, 'after']),
                         index=rng.choice([None, None, b'\x01\x02index']), level=rng.choice([0, 1, 6, 9]))
        out += pbf.some_foreign(rng, odd)
    with open(path, 'wb') as f:
        f.write(out)
    return nb


class ReadWire(Family):
    name, spec = 'read', 'TraceWire'

    def trace(self, sc, ob):
        fr, bl, err = parse_file(sc['path'])
        assert err is None, err
        end = overall(ob) if overall(ob) != 'ok' else outcome(ob['end'])
        els = ob.get('els', [])
        counts = []
        if sc.get('mode') == 'blocks':
            hdr = [e for e in els if 'hdr' in e]
            dat = [e for e in els if 'data' in e]
            if end == 'ok' and not (len(hdr) == 1 and els[:1] == hdr):
                end = 'header'
            els = [e for d in dat for e in d['els']]
            counts = [[len(d['els']) for d in dat]]
        return dict(mode='read', blocks=[wide_block(b) for b in bl], es=[full(e) for e in els], counts=counts, end=end, what='file as read')

    @staticmethod
    def mutate(t, rng):
        if not t['es']:
            return None
        es = [[0, e] for e in t['es']]
        q = rng.random()
        if q < .5:
            mutate_list(es, rng)
        else:
            e = rng.choice(es)[1]
            for k in (['lat', 'lon'] if e['t'] == 'n' else ['id']):
                bump(e[k], rng)
        t['es'] = [e for _, e in es]
        t['counts'] = []
        return t


def C03(ctx):
    rng = ctx.rng
    ctx.model('PbfFormatMC')
    ctx.model('WideMC')
    scs = []
    for i in range(ctx.scale(260, 4000)):
        p = ctx.path('.pbf')
        varied_file(rng, p)
        s = dict(kind='pbfr', path=p)
        if i % 3 == 2:
            s['mode'] = 'blocks'
        scs.append(s)
    # very many empty blocks in a row, read on an ordinary stack
    p = ctx.path('.pbf')
    empty = pbf.frame('OSMData', pbf.Enc(rng).block([]), 'raw')
    with open(p, 'wb') as f:
        f.write(pbf.frame('OSMHeader', pbf.enc_header()) + empty * 20000 + pbf.frame('OSMData', pbf.Enc(rng).block([('ways', [dict(t='w', id=1, refs=[5], tags=[])])])))
    scs.append(dict(kind='pbfr', path=p, stack_kb=2048))
    ctx.check(ReadWire(), scs)
    # the file at one path is replaced by another one and read again; files read at the same time
    part = rng.sample(scs[:-1], ctx.scale(80, 800))
    ctx.check(named(ReadWire(), 'read-replaced'), part, over=['path'])
    ctx.check(named(ReadWire(), 'read-together'), part, together=4)
    rm(ctx, scs)


# ---------------------------------------------------------------- C04
def hdr_tla(h):
    """Driver or parser header as in Header.tla."""
    o = lambda v, c: [] if v is None else [c(v)]
    return dict(bbox=o(h.get('bbox'), lambda b: [W(x) for x in b]), req=h.get('req', []), opt=h.get('opt', []), prog=o(h.get('prog'), hx), src=o(h.get('src'), hx),
                rts=o(h.get('rts'), W), rseq=o(h.get('rseq'), W), rurl=o(h.get('rurl'), hx))


def disk_header(path):
    try:
        fr = pbf.frames(open(path, 'rb').read())
        p = pbf.parse_header([f for f in fr if f['kind'] != 'foreign'][0]['data'])
    except (pbf.Bad, IndexError, OSError) as e:
        return dict(bad=str(e))
    u = lambda l: [x.decode('utf-8', 'replace') for x in l]
    o = lambda l, c=lambda x: x: c(l[0]) if l else None
    return hdr_tla(dict(bbox=o(p['bbox']), req=u(p['req']), opt=u(p['opt']), prog=o(u(p['prog'])), src=o(u(p['src'])), rts=o(p['rts']), rseq=o(p['rseq']), rurl=o(u(p['rurl']))))


class HeaderFam(Family):
    name, spec = 'header', 'TraceHeader'

    def trace(self, sc, ob):
        w, r, b = ob
        ev = []
        if sc.get('kind') != 'pbfr':
            if 'new' in sc:
                n = sc['new']
                p = hdr_tla(dict(n, req=[], opt=[]))
                ev.append(dict(k='new', p=dict(bbox=p['bbox'], prog=hx(n['prog']), src=hx(n['src']), rts=p['rts'], rseq=p['rseq'], rurl=p['rurl'], history=n['history'])))
            else:
                ev.append(dict(k='info', h=hdr_tla(sc['info'] if sc['info'] is not None else w.get('given') or {})))
            if overall(w) != 'ok' or any(outcome(x) != 'ok' for x in [w.get('ctor', 'ok')] + w['ops']):
                ev.append(dict(k='bytes', h=f'writing failed: {json.dumps(w)[:200]}'))
            else:
                ev.append(dict(k='bytes', h=disk_header(sc['path'])))
        else:
            ev.append(dict(k='given', h=disk_header(sc['path'])))
        end = overall(r) if overall(r) != 'ok' else outcome(r['end'])
        ev.append(dict(k='open', r=end, h=hdr_tla(r['info']) if end == 'ok' else {}))
        hs = [e for e in b.get('els', []) if 'hdr' in e]
        if end == 'ok':
            ev.append(dict(k='block', h=hdr_tla(hs[0]['info']) if len(hs) == 1 else {}))
        return dict(ev=ev, what='header')

    @staticmethod
    def mutate(t, rng):
        e = rng.choice(t['ev'][1:])
        if e['k'] == 'open' and (e['r'] != 'ok' or rng.random() < .3):
            e['r'] = 'err' if e['r'] == 'ok' else 'ok'
            return t
        h = e['h']
        if not isinstance(h, dict) or not h:
            return None
        k = rng.choice(list(h))
        if k in ('req', 'opt'):
            h[k] = h[k] + ['x'] if not h[k] or rng.random() < .5 else h[k][:-1]
        elif h[k]:
            if rng.random() < .3:
                h[k] = []
            elif k == 'bbox':
                bump(h[k][0][rng.randrange(4)], rng)
            elif k in ('rts', 'rseq'):
                bump(h[k][0], rng)
            else:
                h[k] = [h[k][0] + '21']
        else:
            h[k] = [W(0)] if k in ('rts', 'rseq') else [[W(0)] * 4] if k == 'bbox' else ['']
        return t


TEXTS = ['', 'osmium/1.14', 'Ünï', 'http://planet.openstreetmap.org/replication/minute', 'a b\n', 'x' * 3000]
BIG = [0, 1, -1, 1700000000, (1 << 31), (1 << 33) + 7, (1 << 63) - 1, -(1 << 63)]
FEATS = ['OsmSchema-V0.6', 'DenseNodes', 'HistoricalInformation', 'Sort.Type_then_ID', 'LocationsOnWays', 'osmschema-v0.6', 'DenseNodes ', '', 'OsmSchema-V0.7', 'X']
SUP = FEATS[:4]


def rand_bbox(rng):
    lon = sorted(rng.choice(gen.LONS + [rng.randint(-180_000_000_000, 180_000_000_000)]) for _ in range(2))
    lat = sorted(rng.choice(gen.LATS + [rng.randint(-90_000_000_000, 90_000_000_000)]) for _ in range(2))
    return [lon[0], lat[0], lon[1], lat[1]]


def C04(ctx):
    rng = ctx.rng
    ctx.model('HeaderMC')
    opt = lambda l: rng.choice(l) if rng.random() < .6 else None
    scs = []

    def put(**kw):
        n = rng.randint(0, 2)
        sc = dict(kind='pbfw', path=ctx.path('.pbf'), comp=rng.choice(['raw', 'zlib']),
                  ops=[dict(op='hdr')] + [dict(op='e', e=gen.element(rng, 'n', i)) for i in range(n)] + [dict(op='close')], **kw)
        if kw.get('info') is not None and rng.random() < .5:     # made by the setters instead of the constructor
            sc['info'] = dict(sc['info'], set=1)
        if 'new' not in kw and rng.random() < .3:                # the other writer
            sc.update(kind='ppw', buf=rng.randint(1, 3), blk=rng.randint(1, 2))
        scs.append(sc)

    put(info=None)
    put(info={})
    for f in FEATS:                                   # every feature alone, required and optional
        put(info=dict(req=[f]))
        put(info=dict(opt=[f]))
    for k in range(16):                               # all subsets of the supported features, with and without one more
        s = [f for i, f in enumerate(SUP) if k >> i & 1]
        put(info=dict(req=s, opt=rng.sample(FEATS, 2)))
        put(info=dict(req=rng.sample(s + [rng.choice(FEATS[4:])], len(s) + 1)))
        put(info=dict(req=s + s[:1]))
    for k in range(64):                               # every combination of present and absent fields
        i = {}
        for j, (f, v) in enumerate((('bbox', rand_bbox(rng)), ('prog', rng.choice(TEXTS)), ('src', rng.choice(TEXTS)), ('rts', rng.choice(BIG)), ('rseq', rng.choice(BIG)), ('rurl', rng.choice(TEXTS)))):
            if k >> j & 1:
                i[f] = v
        put(info=i)
        i = dict(i)
        put(new=dict(prog=rng.choice(TEXTS), src=rng.choice(TEXTS), history=bool(k & 1), **{x: y for x, y in i.items() if x not in ('prog', 'src')}))
    for _ in range(ctx.scale(60, 1500)):
        put(info=dict(bbox=opt([rand_bbox(rng)]), prog=opt(TEXTS), src=opt(TEXTS), rts=opt(BIG), rseq=opt(BIG), rurl=opt(TEXTS),
                      req=[rng.choice(SUP) for _ in range(rng.randint(0, 4))] + ([rng.choice(FEATS)] if rng.random() < .3 else []), opt=[rng.choice(FEATS) for _ in range(rng.randint(0, 4))]))
    for _ in range(ctx.scale(60, 1500)):              # headers from elsewhere
        p = ctx.path('.pbf')
        with open(p, 'wb') as f:
            h = pbf.enc_header(req=[rng.choice(SUP) for _ in range(rng.randint(0, 4))] + ([rng.choice(FEATS)] if rng.random() < .3 else []), opts=[rng.choice(FEATS) for _ in range(rng.randint(0, 4))],
                               bbox=opt([rand_bbox(rng)]), prog=opt(TEXTS), src=opt(TEXTS), rts=opt(BIG), rseq=opt(BIG), rurl=opt(TEXTS))
            f.write(pbf.some_foreign(rng, .2) + pbf.frame('OSMHeader', h + (pbf.fb(99, b'zz') if rng.random() < .2 else b''), rng.choice(['raw', 'zlib'])) + pbf.some_foreign(rng, .2))
        scs.append(dict(kind='pbfr', path=p, mode='info'))
    from common import drive
    if ctx.only and 'header' not in ctx.only:
        return
    w = drive(ctx, [s if s['kind'] != 'pbfr' else dict(kind='bboxops', ops=[]) for s in scs])
    r = drive(ctx, [dict(kind='pbfr', path=s['path'], mode='info') for s in scs])
    b = drive(ctx, [dict(kind='pbfr', path=s['path'], mode='blocks') for s in scs])
    ctx.check(HeaderFam(), scs, obs=list(zip(w, r, b)))
    own = [s for s in scs if s['kind'] != 'pbfr']
    rm(ctx, own)
    for kw, name in ((dict(over=['path']), 'header-replaced'), (dict(together=4), 'header-together')):
        part = rng.sample(own, ctx.scale(60, 600))
        w = drive(ctx, part, **kw)
        r = drive(ctx, [dict(kind='pbfr', path=s['path'], mode='info') for s in part], **kw)
        b = drive(ctx, [dict(kind='pbfr', path=s['path'], mode='blocks') for s in part], **kw)
        ctx.check(named(HeaderFam(), name), part, obs=list(zip(w, r, b)))
        rm(ctx, part)
    rm(ctx, scs)


# ---------------------------------------------------------------- C09
class Summaries(Family):
    """Counts and boxes of a file; the blocks are decoded independently."""
    name, spec = 'summary', 'TraceCount'

    def trace(self, sc, ob):
        c, b, l = ob
        wb = lambda x: [] if x is None else [box_tla(x)]
        fr, bl, err = parse_file(sc['path'])
        assert err is None, err
        dat = [e for e in l.get('els', []) if 'data' in e]
        ev = []
        for i, blk in enumerate(bl):
            es = pbf.decode_block(blk)
            k = lambda t: sum(e['t'] == t for e in es)
            ev.append(dict(k='block', n=k('n'), w=k('w'), r=k('r'), pts=[[W(e['lat']), W(e['lon'])] for e in es if e['t'] == 'n'],
                           bb=[wb(dat[i]['bbox'])] if i < len(dat) else ['missing']))
        e = lambda o: overall(o) if overall(o) != 'ok' else outcome(o['end'])
        ev.append(dict(k='count', r=e(c), c=c.get('count') or []))
        ev.append(dict(k='bbox', r=e(b), b=wb(b.get('bbox'))))
        return dict(ev=ev, what='count and bounding box of a file')

    @staticmethod
    def mutate(t, rng):
        c, b = t['ev'][-2:]
        if b['b'] and rng.random() < .6:
            bump(b['b'][0][rng.choice('lbrt')], rng)
        else:
            c['c'][rng.randrange(3)] += rng.choice([1, -1])
        return t


class Repeated(Summaries):
    """Counts and boxes of one file, again and again."""
    name = 'repeated'

    def trace(self, sc, ob):
        seen = ob.get('seen') or [['bbox', ob], ['count', ob]]
        t = Summaries.trace(self, sc, (dict(end='ok'), dict(end='ok'), dict(els=[])))
        ev = [dict(e, bb=[]) for e in t['ev'][:-2]]
        e = lambda o: overall(o) if overall(o) != 'ok' else outcome(o['end'])
        for k, o in seen:
            if k == 'count':
                ev.append(dict(k='count', r=e(o), c=o.get('count') or []))
            else:
                ev.append(dict(k='bbox', r=e(o), b=[] if o.get('bbox') is None else [box_tla(o['bbox'])]))
        return dict(ev=ev, what='counts and boxes of a file, again and again')

    @staticmethod
    def mutate(t, rng):
        e = json.loads(json.dumps(rng.choice([e for e in t['ev'] if e['k'] in ('count', 'bbox')])))
        if e['k'] == 'count':
            e['c'][rng.randrange(3)] += 1
        elif e['b']:
            bump(e['b'][0][rng.choice('lbrt')], rng)
        else:
            e['r'] = 'ok'
        t['ev'].append(e)
        return t


def box_tla(x):
    return dict(zip('lbrt', map(W, x)))


class BoxOps(Family):
    name, spec = 'merge', 'TraceCount'

    def trace(self, sc, ob):
        ev = [dict(k='pt', p=[W(o['pt'][0]), W(o['pt'][1])]) if 'pt' in o else dict(k='box', b=box_tla(o['box'])) for o in sc['ops']]
        ev.append(dict(k='mem', b=[] if ob.get('bbox') is None else [box_tla(ob['bbox'])]))
        return dict(ev=ev, what='merging points and boxes')

    @staticmethod
    def mutate(t, rng):
        b = t['ev'][-1]['b']
        if not b:
            return None
        bump(b[0][rng.choice('lbrt')], rng)
        return t


def plain(rng, t, id, **kw):
    """An element the default granularities can hold."""
    e = gen.element(rng, t, id, 1, grid=True)
    e['ts'] = e['ts'] // 1000 * 1000
    return dict(e, **kw)


def point(rng):
    return [gen.coord(rng, True, False), gen.coord(rng, False, False)]


def C09(ctx):
    rng = ctx.rng
    ctx.model('SummaryMC')
    paths = []
    for i in range(ctx.scale(120, 1500)):
        p = ctx.path('.pbf')
        varied_file(rng, p)
        paths.append(p)
    # nodes unevenly spread over many small blocks: more blocks than the queue of the reader holds
    for nb, gap in ((1100, 97), (1100, 1), (40, 3), (300, 299)):
        p = ctx.path('.pbf')
        with open(p, 'wb') as f:
            f.write(pbf.frame('OSMHeader', pbf.enc_header()))
            for i in range(nb):
                if i % gap == 0:
                    g = [(rng.choice(['dense', 'nodes']), [plain(rng, 'n', i * 9 + j) for j in range(rng.choice([0, 1, 1, 2]))])]
                else:
                    g = [rng.choice([('ways', [dict(t='w', id=i, refs=[1], tags=[])]), ('rels', [dict(t='r', id=i, mem=[], tags=[])])])]
                f.write(pbf.frame('OSMData', pbf.Enc(rng).block(g), rng.choice(['raw', 'zlib'])) + pbf.some_foreign(rng, .1))
        paths.append(p)
    # files without nodes, with a single node anywhere, all nodes in one point, with a box not containing (0, 0)
    for k in range(24):
        p = ctx.path('.pbf')
        enc = pbf.Enc(rng)
        c = point(rng)
        c = [x // 100 * 100 for x in c]
        sign = (1 if k & 1 else -1, 1 if k & 2 else -1)
        node = lambda i: plain(rng, 'n', i, lat=sign[0] * abs(c[0]), lon=sign[1] * abs(c[1]))
        near = lambda i: dict(node(i), lat=sign[0] * rng.randint(10, 900) * 10**8, lon=sign[1] * rng.randint(10, 1700) * 10**8)
        way = [plain(rng, 'w', 1)]
        gs = [[('ways', way)], [('dense', [node(1)]), ('ways', way)], [('ways', way), ('nodes', [node(2)])],
              [('dense', [near(i) for i in range(20)])], [('nodes', [near(i) for i in range(5)]), ('dense', [near(i) for i in range(9, 14)])], []][k // 4]
        blocks = [[('dense', [])], gs, [('rels', [plain(rng, 'r', 1)])]]
        with open(p, 'wb') as f:
            f.write(pbf.frame('OSMHeader', pbf.enc_header()) + b''.join(pbf.frame('OSMData', enc.block(g)) for g in blocks if rng.random() < .8 or g is gs))
        paths.append(p)
    ws = [s for s in writer_scenarios(ctx, ctx.scale(60, 600))] + big_scenarios(ctx, [(8001, 3, 1), (0, 8001, 1), (16001, 8000, 8001)])
    if not ctx.only or 'summary' in ctx.only:
        drive(ctx, ws)
    scs = [dict(kind='count', path=p) for p in paths + [s['path'] for s in ws]]
    if not ctx.only or 'summary' in ctx.only:
        obs = list(zip(drive(ctx, scs, pin=2), drive(ctx, [dict(kind='bbox', path=s['path']) for s in scs], pin=4), drive(ctx, [dict(kind='pbfr', path=s['path'], mode='blocks', keys=True) for s in scs])))
        ctx.check(Summaries(), scs, obs=obs)
        # other schedules: a single processor, where threads are preempted
        rep = [s for s, l in zip(scs, obs) if len(l[2].get('els', [])) > 3][:ctx.scale(60, 400)]
        obs = list(zip(drive(ctx, rep, pin=1), drive(ctx, [dict(kind='bbox', path=s['path']) for s in rep], pin=1), drive(ctx, [dict(kind='pbfr', path=s['path'], mode='blocks', keys=True) for s in rep])))
        ctx.check(named(Summaries(), 'summary-1cpu'), rep, obs=obs)
        # the file at one path is replaced by another one; files read at the same time
        for kw, name in ((dict(over=['path'], pin=2), 'summary-replaced'), (dict(together=3, pin=4), 'summary-together')):
            rep = rng.sample(scs, ctx.scale(40, 400))
            obs = list(zip(drive(ctx, rep, **kw), drive(ctx, [dict(kind='bbox', path=s['path']) for s in rep], **kw), drive(ctx, [dict(kind='pbfr', path=s['path'], mode='blocks', keys=True) for s in rep])))
            ctx.check(named(Summaries(), name), rep, obs=obs)
    rm(ctx, scs)
    # few blocks, which are done at about the same time, each with nodes that no other block surpasses
    scs = []
    for k, shape in enumerate([[1] * 8, [1] * 8, [1] * 2, [1] * 4, [1] * 16, [0, 1, 1, 0, 1], [1] * 32, [30] * 8] * ctx.scale(1, 4)):
        p = ctx.path('.pbf')
        f = lambda i, j: (20 + 3 * i + j * .001, 50 - 2 * i) if k % 2 else (-10 - 2 * i, (-1) ** i * 4 * (i + 1) + j * .01)
        with open(p, 'wb') as h:
            h.write(pbf.frame('OSMHeader', pbf.enc_header()))
            for i, m in enumerate(shape):
                ll = [f(i, j) for j in range(m)]
                g = [(rng.choice(['dense', 'nodes']), [dict(t='n', id=i * 100 + j, ver=1, lat=round(a * 1e4) * 10**5, lon=round(o * 1e4) * 10**5, tags=[]) for j, (a, o) in enumerate(ll)])] if m else [('ways', [dict(t='w', id=i, refs=[1], tags=[])])]
                h.write(pbf.frame('OSMData', pbf.Enc(rng).block(g), 'raw'))
        scs.append(dict(kind='summaries', path=p, times=ctx.scale(2500, 20000), ms=ctx.scale(5000, 40000), timeout_ms=ctx.scale(60000, 200000)))
    ctx.check(Repeated(), scs, jobs=1)
    rm(ctx, scs)
    scs = [dict(kind='bboxops', ops=[])]
    for i in range(ctx.scale(300, 4000)):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 12])):
            if rng.random() < .6:
                ops.append(dict(pt=point(rng)))
            else:
                ops.append(dict(box=rand_bbox(rng)))
        scs.append(dict(kind='bboxops', ops=ops))
        if len(ops) < 6:
            scs.append(dict(kind='bboxops', ops=ops[::-1]))
    ctx.check(BoxOps(), scs)


# ---------------------------------------------------------------- C18
MODES = ['elements', 'blocks', 'parallel', 'count', 'bbox']


def kform(k, ids):
    return [RANK[k[0]], ids[k[1]] if k[0] != 's' else 0, k[2]]


class Cuts(Family):
    name, spec = 'cuts', 'TraceStream'

    def trace(self, sc, ob):
        fr, bl, err = parse_file(sc['path'])
        assert err is None, err
        blobs = [[[e['t'], e['id'], e['ver']] for e in map(fill, pbf.decode_block(pbf.parse_block(x['data'])))] if x['type'] == 'OSMData' else [] for x in fr]
        got = [k for o in ob.get('cuts', []) for m in MODES for k in self.keys(o[m])]
        ids = {v: i for i, v in enumerate(sorted({k[1] for b in blobs for k in b} | {k[1] for k in got}))}
        f = lambda l: [kform(k, ids) for k in l]
        ev = []
        for o in ob.get('cuts', []):
            e = dict(at=o['at'])
            for m in MODES:
                x = dict(r=outcome(o[m]['end']))
                if m == 'blocks':
                    x['blocks'] = [[] if 'hdr' in b else f(b['els']) for b in o[m]['els']]
                elif m in ('elements', 'parallel'):
                    x['els'] = f(self.keys(o[m]))
                elif m == 'count':
                    x['c'] = o[m].get('count') or []
                e[m] = x
            ev.append(e)
        if 'cuts' not in ob:
            z = dict(r=overall(ob), els=[], blocks=[], c=[])
            ev.append(dict(at=self.where(ob), **{m: z for m in MODES}))
        return dict(ends=[x['end'] for x in fr], known=[x['kind'] != 'foreign' for x in fr], els=[f(b) for b in blobs], ev=ev, what='file cut at a byte')

    @staticmethod
    def where(ob):
        """Where a run that did not end was."""
        l = [x['at'] for x in ob.get('partial') or [] if isinstance(x, dict) and 'at' in x]
        return l[-1] if l else -1

    @staticmethod
    def keys(o):
        if 'ev' in o:
            return [k for _, k in o['ev']]
        els = o.get('els', [])
        return [k for e in els for k in e.get('els', [])] if els and isinstance(els[0], dict) else els

    @staticmethod
    def mutate(t, rng):
        e = rng.choice(t['ev'])
        m = rng.choice(['elements', 'blocks', 'parallel', 'count'])
        if e[m]['r'] != 'ok':
            e[m]['r'] = 'ok' if e['at'] not in t['ends'] else 'hang'
        elif m == 'count':
            e[m]['c'][0] += 1
        elif m == 'blocks':
            e[m]['blocks'] = e[m]['blocks'][:-1]
        elif e[m]['els']:
            e[m]['els'] = e[m]['els'][:-1]
        else:
            e[m]['r'] = 'hang'
        return t

    def explain(self, trace, pos):
        return f'{trace["what"]}: blobs end at {clip(trace["ends"])}; observation {json.dumps(trace["ev"][pos])[:600]}'


def C18(ctx):
    rng = ctx.rng
    ctx.model('PbfStreamMC')
    files = []
    for i in range(ctx.scale(7, 60)):                   # written by the library
        es = gen.elements(rng, rng.choice([0, 1, 2, 4, 6]), types=rng.choice(['nwr', 'nwr', 'n', 'w', 'nw']), grid=True)
        for e in es:
            e['tags'] = e['tags'][:2]
            e['user'] = e['user'][:8]
            for k in ('refs', 'mem'):
                if k in e:
                    e[k] = e[k][:4]
        files.append(dict(kind='pbfw', path=ctx.path('.pbf'), comp='raw' if i % 2 else 'zlib', ops=[dict(op='hdr'), dict(op='es', es=es), dict(op='close')]))
    if not ctx.only or 'cuts' in ctx.only:
        drive(ctx, files)
    paths = [f['path'] for f in files]
    for i in range(ctx.scale(7, 60)):                   # from elsewhere, with empty blocks and empty blobs
        p = ctx.path('.pbf')
        for _ in range(50):
            varied_file(rng, p, size=rng.choice([0, 1, 2, 3]), meta=True, odd=.6 if i % 3 == 2 else None)
            if os.path.getsize(p) < 1500:
                break
        paths.append(p)
    # blob headers with index data: the header length has a second non-zero byte
    p = ctx.path('.pbf')
    enc = pbf.Enc(rng)
    with open(p, 'wb') as f:
        f.write(pbf.frame('OSMHeader', pbf.enc_header(), index=b'i' * 300) + b''.join(
            pbf.frame('OSMData', enc.block([('dense', [plain(rng, 'n', i, tags=[], user='')])]), index=b'x' * n) for i, n in enumerate((255, 256, 243, 0))))
    paths.append(p)
    # a file of many equal small blocks, cut near every boundary
    p = ctx.path('.pbf')
    with open(p, 'wb') as f:
        f.write(pbf.frame('OSMHeader', pbf.enc_header()) + b''.join(pbf.frame('OSMData', enc.block([('dense', [dict(t='n', id=i, lat=0, lon=0, tags=[], ver=1, ts=0, cs=1, uid=1, user='', vis=True)])]), 'raw') for i in range(40)))
    paths.append(p)
    scs = []
    for p in paths:
        n = os.path.getsize(p)
        fr, bl, err = parse_file(p)
        at = set(range(n + 1))
        if n > ctx.scale(1600, 6000):
            near = {e + d for e in [0] + [x['end'] for x in fr] + [x['body'] for x in fr] for d in (-2, -1, 0, 1, 2, 3, 4, 5, 6)}
            at = {c for c in near | set(rng.sample(range(n), 300)) if 0 <= c <= n}
        at = sorted(at)
        for i in range(0, len(at), 120):
            scs.append(dict(kind='cuts', path=p, tmp=ctx.path('.cut'), cuts=at[i:i + 120], modes=MODES, tasks=rng.choice([1, 2, 3, 8])))
    ctx.check(Cuts(), scs, pin=2)
    rm(ctx, scs)


# ---------------------------------------------------------------- C19
class Crash(Family):
    """The file after every call, and cut anywhere within what the call added."""
    name, spec = 'crash', 'TraceSeq'

    def trace(self, sc, ob):
        w, cuts = ob
        given = [e for op in sc['ops'] for e in op_elements(op)]
        small = len(given) <= 300
        files = [os.path.join(sc['snap'], f'{k}.pbf') for k in range(len(sc['ops']) + 1)]
        dec = []
        for f in files:
            fr, bl, err = parse_prefix(f) if os.path.exists(f) else ([], [], 'missing')
            dec.append(([pbf.decode_block(b) for b in bl], err))
        ids = rename(given, *[b for bs, _ in dec for b in bs])
        conv = (lambda e: ranked(fill(e))) if small else (lambda e: keyed(e, ids))
        ev, lib = [], []
        calls = calls_of(sc, w, ranked if small else conv)
        for k, c in enumerate(calls, 1):
            ev.append(c)
            lib.append(dict(c, es=[kform([e['t'], e['id'], e['ver']], ids) for e in op_elements(sc['ops'][k - 1])]) if 'es' in c else c)
            bs, err = dec[k]
            ev.append(dict(k='disk', blocks=[[conv(e) for e in b] for b in bs], tail='clean' if err is None else 'partial'))
            lo = sum(map(len, dec[k - 1][0]))
            for cut, es in cut_reads(files[k], sc.get('cutat', {}).get(str(k), [])):
                ev.append(dict(k='cut', lo=lo if k > 1 else 0, es=[conv(e) for e in es]))
            for o in cuts.get(k, []):
                lib.append(dict(k='cut', lo=lo, es=[kform(x, ids) if x[1] in ids else [0, 0, 0] for x in o['elements']['els']]))
        base = dict(faulty=False, comp=sc['comp'])
        return [dict(base, form='full' if small else 'key', ev=ev, what='file after each call'), dict(base, form='key', ev=lib, what='file after each call, read by the library')]

    @staticmethod
    def mutate(t, rng):
        d = [e for e in t['ev'] if e['k'] == 'disk' and e['blocks'] and any(e['blocks'])]
        c = [e for e in t['ev'] if e['k'] == 'cut']
        if d and rng.random() < .7:
            e = rng.choice(d)
            if rng.random() < .3:
                e['tail'] = 'partial'
            else:
                b = rng.choice([b for b in e['blocks'] if b])
                mutate_list(b, rng, t['form'] == 'full')
        elif c:
            e = rng.choice(c)
            if e['es']:
                del e['es'][0]
                if not e['es'] and not e['lo']:
                    return None
            else:
                e['lo'] = 1
        else:
            return None
        return t


def parse_prefix(path):
    """Complete blobs at the start of a file; err tells what follows them."""
    data = open(path, 'rb').read()
    try:
        fr, err = pbf.frames(data), None
    except pbf.Bad as e:
        fr, err = e.good, str(e)
    try:
        return fr, [pbf.parse_block(f['data']) for f in fr if f['type'] == 'OSMData'], err
    except (pbf.Bad, IndexError) as e:
        return fr, [], str(e)


def cut_reads(path, cuts):
    data = open(path, 'rb').read()
    for c in cuts:
        try:
            fr = pbf.frames(data[:c])
        except pbf.Bad as e:
            fr = e.good
        yield c, [e for f in fr if f['type'] == 'OSMData' for e in pbf.decode_block(pbf.parse_block(f['data']))]


def C19(ctx):
    rng = ctx.rng
    ctx.model('SeqWriterMC')
    scs = []

    def add(ops):
        scs.append(dict(kind='pbfw', path=ctx.path('.pbf'), snap=ctx.dir(), comp=rng.choice(['raw', 'zlib']), ops=[dict(op='hdr')] + ops + [dict(op='close')]))
    for i in range(ctx.scale(60, 600)):
        add(gen.split_calls(rng, gen.elements(rng, rng.choice([0, 1, 3, 6, 12, 20]), versions=rng.random() < .3)))
    for i in range(ctx.scale(6, 40)):                  # calls that fill blocks, in different portions
        ops = []
        for t in rng.sample(['n', 'w', 'r'], rng.choice([1, 2])) if i % 2 else 'nwr':
            ops.append(t)
        ops.sort(key='nwr'.index)
        run_ops = []
        for t in ops:
            first = 1
            for _ in range(rng.choice([1, 2])):
                n = rng.choice([1, 100, 3999, 4001, 7999, 8000, 8001, 12000, 16001]) if first < 8000 else rng.choice([1, 4001, 7999])
                run_ops.append(dict(op=rng.choice(['es', 'each']), run=dict(t=t, first=first, n=n)))
                first += n
        add(run_ops)
    if ctx.only and 'crash' not in ctx.only:
        return
    w = drive(ctx, scs)
    reads, owner = [], []
    for i, (s, o) in enumerate(zip(scs, w)):
        sizes = o.get('sizes', [])
        s['cutat'] = {}
        for k in range(1, len(sizes)):
            a, b = sizes[k - 1], sizes[k]
            if any('run' in x for x in s['ops']):
                at = sorted({a + 4, rng.randrange(a, b), b - 1}) if b > a and rng.random() < .4 else []
            else:
                at = sorted(set(range(a, b)) if b - a <= 24 else {a, a + 1, a + 3, a + 4, a + 5, b - 1, b - 2, (a + b) // 2} | set(rng.sample(range(a, b), 6)))
            s['cutat'][str(k)] = at
            if at and k > 1:
                reads.append(dict(kind='cuts', path=os.path.join(s['snap'], f'{k}.pbf'), tmp=ctx.path('.cut'), cuts=at, modes=['elements']))
                owner.append((i, k))
    r = drive(ctx, reads)
    by = [{} for _ in scs]
    for (i, k), o in zip(owner, r):
        by[i][k] = o.get('cuts') or [dict(elements=dict(els=[['s', None, 0]]))]
    ctx.check(Crash(), scs, obs=list(zip(w, by)))


# ---------------------------------------------------------------- C20
class DiskFull(Family):
    """Writing with room for a given number of bytes."""
    name, spec = 'disk-full', 'TraceSeq'

    def trace(self, sc, ob):
        given = [e for op in sc['ops'] for e in op_elements(op)]
        small = len(given) <= 300
        fr, bl, err = parse_prefix(sc['path']) if os.path.exists(sc['path']) else ([], [], 'missing')
        blocks = [pbf.decode_block(b) for b in bl]
        ids = rename(given, *blocks)
        conv = (lambda e: ranked(fill(e))) if small else (lambda e: keyed(e, ids))
        if 'err' in ob:                                 # the constructor failed
            ev = [dict(k='hdr', r='err')]
        else:
            ev = calls_of(sc, ob, ranked if small else conv)
        ev.append(dict(k='disk', blocks=[[conv(e) for e in b] for b in blocks], tail='clean' if err is None and fr else 'partial'))
        return dict(form='full' if small else 'key', faulty=sc['fsize'] < sc['size'], comp=sc['comp'], ev=ev, what=f'writing with room for {sc["fsize"]} of {sc["size"]} bytes')

    @staticmethod
    def mutate(t, rng):
        bad = [e for e in t['ev'] if e.get('r') == 'err']
        for e in bad:
            e['r'] = 'ok'
        return t if bad else None


def C20(ctx):
    rng = ctx.rng
    ctx.model('SeqWriterMC')
    base = []
    for i in range(ctx.scale(6, 40)):
        es = gen.elements(rng, rng.choice([0, 1, 3, 5]), types=rng.choice(['nwr', 'nw', 'n', 'r']))
        for e in es:
            e['tags'] = e['tags'][:3]
            e['user'] = e['user'][:9]
        base.append(dict(kind='pbfw', path=ctx.path('.pbf'), comp='raw' if i % 2 else 'zlib', ops=[dict(op='hdr')] + gen.split_calls(rng, es) + [dict(op='close')]))
    big = [dict(kind='pbfw', path=ctx.path('.pbf'), comp=c, ops=[dict(op='hdr'), dict(op='es', run=dict(t='n', first=1, n=9000)), dict(op='each', run=dict(t='w', first=1, n=8001)), dict(op='close')]) for c in ('raw', 'zlib')]
    if not ctx.only or 'disk-full' in ctx.only:
        drive(ctx, base + big)
        scs = []
        for b in base + big:
            n = os.path.getsize(b['path'])
            if b in big:
                fr = pbf.frames(open(b['path'], 'rb').read())
                near = {x['end'] + d for x in fr for d in (-1, 0, 1)} | {x['body'] + d for x in fr for d in (-1, 0)} | {0}
                at = [c for c in sorted(near | set(rng.sample(range(n), ctx.scale(6, 40)))) if c <= n]
            else:
                at = range(n + 1) if n <= 400 or ctx.thorough else sorted(set(range(0, n + 1, 3)) | set(range(n - 40, n + 1)))
            for c in at:
                s = dict(b, path=ctx.path('.pbf'), fsize=c, size=n)
                if rng.random() < .3:
                    s['keep_going'] = 1
                scs.append(s)
        # no file can be created there
        d = ctx.path('.file')
        open(d, 'w').close()
        scs.append(dict(base[1], path=os.path.join(d, 'x.pbf'), fsize=1 << 20, size=1 << 30))
        scs.append(dict(base[1], path=os.path.join(ctx.work, 'missing', 'x.pbf'), fsize=1 << 20, size=1 << 30))
        ctx.check(DiskFull(), scs)
        rm(ctx, scs)
    try:
        import p_dump
    except ImportError:
        return
    p_dump.disk_full(ctx)


# ---------------------------------------------------------------- C21
class IterFam(Family):
    name, spec = 'iterators', 'TraceIters'

    def trace(self, sc, ob):
        files = []
        for p in sc['paths']:
            fr, bl, err = parse_file(p)
            assert err is None, err
            files.append([[[e['t'], e['id'], e['ver']] for e in map(fill, pbf.decode_block(b))] for b in bl])
        out = ob.get('out', [])
        flat = [k for q in out if isinstance(q, dict) for o in [q] + q.get('ins', []) if isinstance(o, dict) for k in ([o['e']] if 'e' in o else o.get('b', o.get('p', [])))]
        ids = {v: i for i, v in enumerate(sorted({k[1] for f in files for b in f for k in b} | {k[1] for k in flat}))}
        f = lambda k: kform(k, ids)

        def cv(o):
            if isinstance(o, str):
                return {o: True}
            if isinstance(o, list):
                return dict(c=o)
            return {k: f(v) if k == 'e' else [cv(x) for x in v] if k == 'ins' else [f(x) for x in v] for k, v in o.items()}
        end = overall(ob) if overall(ob) != 'ok' else outcome(ob['end'])
        return dict(files=[[[f(k) for k in b] for b in x] for x in files], ops=sc['ops'], out=[cv(o) for o in out], end=end, what='interleaved iterators')

    @staticmethod
    def mutate(t, rng):
        c = [o for o in t['out'] if set(o) & {'e', 'b', 'p', 'c', 'end'}]
        if not c:
            return None
        o = rng.choice(c)
        if o.get('ins') and rng.random() < .5:
            o = rng.choice(o['ins'])
        if 'e' in o:
            o['e'][2] += 1
        elif 'c' in o:
            o['c'][1] += 1
        elif 'end' in o:
            del o['end']
            o['e'] = [1, 1, 1]
        else:
            k = 'b' if 'b' in o else 'p'
            o[k] = o[k][:-1] if o[k] else [[1, 1, 1]]
        return t


def key_file(rng, path, blocks):
    """A file with the given numbers of elements in its blocks."""
    odd = .2 if rng.random() < .3 else 0
    out = pbf.some_foreign(rng, odd) + pbf.frame('OSMHeader', pbf.enc_header())
    i = 0
    for n in blocks:
        k = rng.choice(['dense', 'ways', 'rels'])
        es = [plain(rng, dict(dense='n', ways='w', rels='r')[k], i + j) for j in range(n)]
        i += n
        out += pbf.frame('OSMData', pbf.Enc(rng).block([(k, es)] if es or rng.random() < .5 else []), rng.choice(['raw', 'zlib'])) + pbf.some_foreign(rng, odd)
    with open(path, 'wb') as f:
        f.write(out)
    return path


GEN_FILES = [[1, 2]]                                   # the file of ItersMC


def gen_script(rng, script):
    """A script of the model on one or two readers; then the living iterators run to their end and beyond."""
    ops = [['reader', 0, 0], rng.choice([['reader', 1, 0], ['clone', 1, 0]])]
    live = []
    for op in script:
        if op[0] in ('el', 'bl'):
            live.append(op[1])
            ops.append(op + [rng.choice([0, 0, 1])])
        else:
            if op[0] == 'drop':
                live.remove(op[1])
            ops.append(op)
    tail = [['next', i] for i in live for _ in range(5)]
    rng.shuffle(tail)
    return ops + tail


def C21(ctx):
    rng = ctx.rng
    ctx.model('ItersMC')
    # every script of the model (small files, two iterators): generated by TLC, replayed here
    r = ctx.model('ItersMC', 'ItersGen.cfg', workers=1, keep=True)
    scripts = sorted({l for l in re.findall(r'SCRIPT (\[.*\])', r['out'].replace('\\"', '"'))}) if r else []
    paths = [key_file(rng, ctx.path('.pbf'), b) for b in GEN_FILES]
    if r and not scripts:
        raise ToolError('no scripts were generated')
    scs = [dict(kind='iters', paths=paths, ops=gen_script(rng, json.loads(s))) for s in scripts]
    ctx.check(IterFam(), scs)
    fam = IterFam()
    fam.name = 'random'
    shapes = [[], [0], [1], [3, 0, 2], [0, 0, 4], [5, 1, 1, 0, 7], [2] * 30, [0] * 20 + [3]]
    scs = []
    for _ in range(ctx.scale(200, 3000)):
        ps = [key_file(rng, ctx.path('.pbf'), rng.choice(shapes)) for _ in range(rng.choice([1, 1, 2]))]
        ops, readers, its = [['reader', 0, 0]], {0}, {}
        for _ in range(rng.choice([10, 30, 80])):
            q = rng.random()
            if q < .08 and len(readers) < 5:
                r = len(readers)
                ops.append(['reader', r, rng.randrange(len(ps))] if rng.random() < .5 else ['clone', r, rng.choice(sorted(readers))])
                readers.add(r)
            elif q < .25 and len(its) < 6:
                i = min(set(range(16)) - set(its))
                its[i] = 1
                ops.append([rng.choice(['el', 'el', 'bl']), i, rng.choice(sorted(readers))])
            elif q < .28 and its:
                i = rng.choice(sorted(its))
                del its[i]
                ops.append(['drop', i])
            elif q < .32:
                ops.append([rng.choice(['count', 'par']), rng.choice(sorted(readers))])
            elif its:
                i = rng.choice(sorted(its))
                ops += [['next', i]] * rng.choice([1, 1, 2, 5, 12])
        for i in sorted(its):                          # run to the end and beyond
            ops += [['next', i]] * rng.choice([0, 3, 45])
        scs.append(dict(kind='iters', paths=ps, ops=ops))
    ctx.check(fam, scs, pin=2)
    # callbacks of a parallel iteration that use the library themselves
    scs = []
    for _ in range(ctx.scale(40, 400)):
        ps = [key_file(rng, ctx.path('.pbf'), rng.choice(shapes)) for _ in range(2)]
        ops = [['reader', 0, 0], ['reader', 1, 1], ['el', 0, 0], ['next', 0]]
        for _ in range(rng.choice([1, 2, 4])):
            ops += [['nest', rng.randrange(2), rng.randrange(2), rng.choice(['count', 'el', 'par'])], ['next', 0]]
        scs.append(dict(kind='iters', paths=ps, ops=ops))
    ctx.check(named(IterFam(), 'nested'), scs)
