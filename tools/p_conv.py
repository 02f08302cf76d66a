"""C22: conversions between PBF files and API database dumps."""
import datetime, json, os, re, shutil
import apidb, gen, pbf
from common import Family, W, drive, named
from conv import *
from p_dump import coherent, histories, concrete, joined, rich, tame


class Conversion(Family):
    spec = 'TraceConversion'

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        key = sc.get('long')
        srt = lambda e: dict(e, tags=sorted(e['tags'])) if 'tags' in e else e
        f = (lambda e: keyed(srt(e))) if key else full
        given = sc['given'] if 'given' in sc else [e for r in sc['runs'] for e in run(r)]
        stages = [dict(to='given', els=[f(e) for e in given], end='ok')]
        bad = overall(ob)
        for k, s in enumerate(ob.get('stages', [])):
            to = s['to'] if k else 'dump' if sc['from'] == 'dump' else 'pbf'
            stages.append(dict(to=to, els=[f(e) for e in s['els']], end=outcome(s['end'])))
        if bad != 'ok' or len(stages) < 2 + len(sc['stages']) and stages[-1]['end'] == 'ok':
            stages.append(dict(to='seq', els=[], end=bad if bad != 'ok' else 'missing'))
        if not os.environ.get('VERIF_KEEP'):
            clear(sc)
        return dict(stages=stages, mode='key' if key else 'full', what=f'from {sc["from"]} to ' + ', '.join(s['to'] for s in sc['stages']))

    def explain(self, trace, pos):
        for k, s in enumerate(trace['stages']):
            if pos <= len(s['els']):
                break
            pos -= len(s['els']) + 1
        e = s['els'][pos] if pos < len(s['els']) else s['end']
        return f'{trace["what"]}: stage {k} ({s["to"]}), element {pos + 1} of {len(s["els"])}: {json.dumps(e)[:400]}'

    @staticmethod
    def mutate(t, rng):
        s = rng.choice([s for s in t['stages'][1:]])
        g = s['els']
        if not g:
            s['end'] = 'err'
            return t
        i = rng.randrange(len(g))
        if rng.random() < .3 or (g[i][0] == 4 if t['mode'] == 'key' else g[i]['t'] == 's'):
            del g[i]
        elif t['mode'] == 'key':
            g[i][3] += 'x'
        elif g[i]['tags'] and rng.random() < .5:
            g[i]['tags'] = g[i]['tags'][:-1]
        else:
            g[i][rng.choice(['cs', 'uid', 'ver'])] = W(987654321)
        return t


def clear(sc):
    for s in sc['stages'] + [dict(path=sc['src'], tmp=sc.get('tmp'))]:
        for p in (s['path'], s.get('tmp')):
            if p and os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            elif p and os.path.isfile(p):
                os.unlink(p)


def pbf_source(rng, path, es, grid=True):
    """A PBF file of these elements, in order, by the independent encoder."""
    out = pbf.frame('OSMHeader', pbf.enc_header(opts=['Sort.Type_then_ID']))
    i = 0
    while i < len(es):
        n = rng.choice([1, 2, 5, 9, 30])
        b = [e for e in es[i:i + n] if e['t'] == es[i]['t']]
        k = dict(n=rng.choice(['dense', 'dense', 'nodes']), w='ways', r='rels')[es[i]['t']]
        enc = pbf.Enc(rng, gran=100 if grid else 1, dgran=rng.choice([1000, 1000, 1]) if grid else 1, dup=rng.random() < .3)
        out += pbf.frame('OSMData', enc.block([(k, b)]), rng.choice(['raw', 'zlib']))
        if rng.random() < .1:
            out += pbf.frame('OSMData', pbf.Enc(rng).block([]), 'raw')
        i += len(b)
    with open(path, 'wb') as f:
        f.write(out)
    return path


def stages(ctx, kinds):
    rng = ctx.rng
    out = []
    for k in kinds:
        s = dict(to=k, comp=rng.choice(['raw', 'zlib']))
        if k == 'dump':
            s['path'] = ctx.path('.dump')
            s['tmp'] = s['path'] + '.tmp'
        else:
            s['path'] = ctx.path('.pbf')
        if k == 'par':
            s['blk'] = rng.choice([1, 2, 3, 7, 100, 8000])
            s['buf'] = rng.choice([0, 1, s['blk'], 3 * s['blk'], 100000])
        s['list'] = rng.choice([0, 0, 1, 5, 1000])
        out.append(s)
    return out


CHAINS = [['dump'], ['dump', 'seq'], ['dump', 'par'], ['seq', 'dump'], ['par', 'dump', 'seq'], ['dump', 'dump'], ['dump', 'seq', 'dump'], ['dump', 'par', 'dump', 'par'], ['seq', 'par', 'seq'], ['par', 'seq']]


def scenario(ctx, es, frm, kinds, grid=True):
    rng = ctx.rng
    if frm == 'dump':
        d = ctx.path('.dump')
        es = coherent(es)
        apidb.write_dump(d, es, rng)
        for e in es:                                  # the rows have whole seconds and 1e-7 degrees
            e['tags'] = sorted(e['tags'])
            e['ts'] = e['ts'] // 1000 * 1000
        return dict(kind='conv', src=d, tmp=d + '.tmp', stages=stages(ctx, kinds), given=es, **{'from': 'dump'})
    for e in es:
        if grid:
            e['ts'] = e['ts'] // 1000 * 1000
            for k in ('lat', 'lon'):
                if k in e:
                    e[k] = e[k] // 100 * 100
    return dict(kind='conv', src=pbf_source(rng, ctx.path('.pbf'), es, grid), stages=stages(ctx, kinds), given=es, **{'from': 'pbf'})


def C22(ctx):
    rng = ctx.rng
    ctx.model('ConversionMC', 'ConversionMC4.cfg' if ctx.thorough else None)
    hs = histories(ctx, ['mixed', 'n', 'w', 'r'] if ctx.thorough else ['mixed'])
    scs = []
    for es in joined(hs, rng, 25)[:ctx.scale(12, 60)]:
        scs.append(scenario(ctx, es, rng.choice(['pbf', 'dump']), rng.choice(CHAINS)))
    for h in rng.sample(hs, min(len(hs), ctx.scale(24, 300))):
        scs.append(scenario(ctx, concrete(h, rng), rng.choice(['pbf', 'dump']), rng.choice(CHAINS)))
    ctx.check(Conversion('histories'), scs, pin=2)
    scs = []
    for i in range(ctx.scale(120, 1500)):
        es = rich(rng, rng.choice([0, 1, 2, 5, 10, 25]), texts=rng.random() < .4, vis=rng.choice([None, .5, 1]))
        for e in es:
            e['ts'] = abs(e['ts'])
        scs.append(scenario(ctx, es, rng.choice(['pbf', 'pbf', 'dump']), CHAINS[i % len(CHAINS)], rng.random() < .7))
    k = len(scs) * 3 // 4
    ctx.check(Conversion('chains'), scs[:k], pin=2)
    ctx.check(Conversion('chains-together'), scs[k:], pin=2, together=3)
    # contents of several blocks, many users
    long = Conversion('long')
    if ctx.only and long.name not in ctx.only:
        return
    srcs, scs = [], []
    n = ctx.scale(1, 4)
    for kinds in (['dump', 'par', 'dump', 'seq'], ['par', 'dump', 'seq'])[:ctx.scale(1, 2)]:
        rs = [dict(t='n', first=2, n=9000 * n, step=3), dict(t='w', first=(1 << 30) + 1, n=8001 * n, step=3), dict(t='r', first=8, n=8500 * n, step=9)]
        p = ctx.path('.pbf')
        srcs.append(dict(kind='pbfw', path=p, ops=[dict(op='hdr'), dict(op='es', runs=rs), dict(op='close')]))
        scs.append(dict(kind='conv', src=p, runs=rs, stages=stages(ctx, kinds), long=1, timeout_ms=200000, **{'from': 'pbf'}))
        for s in scs[-1]['stages']:
            if s['to'] == 'par':
                s['blk'], s['buf'] = rng.choice([(100, 300), (1000, 0), (8000, 30000)])
    drive(ctx, srcs)
    ctx.check(long, scs, pin=4)


# ---------------------------------------------------------------- C23
class DumpIters(Family):
    spec = 'TraceIters'

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        ids = {v: i for i, v in enumerate(sorted({e['id'] for f in sc['contents'] for e in f} | {e['id'] for o in ob.get('out', []) if isinstance(o, dict)
                                                   for e in ([o['e']] if 'e' in o else o.get('b', [])) if e['t'] != 's'}))}
        srt = lambda e: dict(e, tags=sorted(e['tags']), ts=e['ts'] // 1000 * 1000) if e['t'] != 's' else e
        f = lambda e: keyed(srt(e), ids)
        files = []
        for es in sc['contents']:
            x = []
            for t in 'nwr':
                x += [f(e) for e in es if e['t'] == t] + [[4, 0, 0, '']]
            files.append([x])

        def cv(o):
            if isinstance(o, str):
                return {o: True}
            return {k: f(v) if k == 'e' else [f(x) for x in v] if k == 'b' else v for k, v in o.items()}
        end = overall(ob) if overall(ob) != 'ok' else outcome(ob['end'])
        t = dict(files=files, ops=[['reader' if o[0] == 'dreader' else o[0]] + o[1:] for o in sc['ops']], out=[cv(o) for o in ob.get('out', [])], end=end, what='iterators over dumps')
        if not os.environ.get('VERIF_KEEP'):
            for p in sc['paths'] + [sc['tmp']]:
                shutil.rmtree(p, ignore_errors=True)
        return t

    def explain(self, trace, pos):
        op = trace['ops'][pos] if pos < len(trace['ops']) else 'end'
        o = trace['out'][pos] if pos < len(trace['out']) else trace['end']
        return f'{trace["what"]}: operation {pos + 1} of {len(trace["ops"])}, {op}, returned {json.dumps(o)[:300]}'

    @staticmethod
    def mutate(t, rng):
        c = [o for o in t['out'] if set(o) & {'e', 'b', 'end', 'same'}]
        if not c:
            return None
        o = rng.choice(c)
        if 'e' in o:
            o['e'][3] += 'x'
        elif 'same' in o:
            o['same'] = False
        elif 'end' in o:
            del o['end']
            o['e'] = [1, 1, 1, '']
        else:
            o['b'] = o['b'][:-1]
        return t


def content(rng, n):
    """What a dump with whole seconds and units holds, as the reader returns it."""
    es = coherent(rich(rng, n))
    for e in es:
        e['ts'] = abs(e['ts']) // 1000 * 1000
        for k in ('lat', 'lon'):
            if k in e:
                e[k] = e[k] // 100 * 100
    return es


def dump_scripts(ctx, sizes, ops):
    rng = ctx.rng
    paths, contents = [], []
    for n in sizes:
        p = ctx.path('.dump')
        es = content(rng, n)
        if contents and rng.random() < .7:              # the same keys and numbers as in the first, but other values
            es = [dict(e, uid=e['uid'] ^ 1, user='no ' + e['user'], vis=not e['vis'], ts=max(0, e['ts'] - 1000), tags=e['tags'][1:]) for e in contents[0]]
        apidb.write_dump(p, es, rng, order=rng.choice(['shuffle', 'plain', 'reverse']))
        paths.append(p)
        contents.append(es)
    return dict(kind='diters', paths=paths, contents=contents, tmp=ctx.path('.work'), ops=ops)


def C23(ctx):
    rng = ctx.rng
    ctx.model('ItersMC')
    r = ctx.model('ItersMC', 'ItersGen.cfg', workers=1, keep=True)
    scripts = sorted({l for l in re.findall(r'SCRIPT (\[.*\])', r['out'].replace('\\"', '"')) if '"bl"' not in l}) if r else []
    scs = []
    for s in scripts if ctx.thorough else rng.sample(scripts, min(len(scripts), 120)):
        s = json.loads(s)
        ops, live = [['reader', 0, 0]] + ([['reader', 1, 0]] if rng.random() < .5 else []), []
        for op in s:
            if op[0] == 'el':
                live.append(op[1])
                op = op + [rng.randrange(len([o for o in ops if o[0] == 'reader']))]
            elif op[0] == 'drop':
                live.remove(op[1])
            ops.append(op)
        tail = [['next', i] for i in live for _ in range(9)]
        rng.shuffle(tail)
        scs.append(dump_scripts(ctx, [3], ops + tail + [['same', 0]]))
    ctx.check(DumpIters('scripts'), scs, pin=2)
    scs = []
    for _ in range(ctx.scale(60, 900)):
        sizes = [rng.choice([0, 1, 5, 12, 30]) for _ in range(rng.choice([1, 1, 2]))]
        ops, readers, its = [['reader', 0, 0]], {0}, {}
        for _ in range(rng.choice([10, 30])):
            q = rng.random()
            if q < .1 and len(readers) < 4:
                r = len(readers)
                ops.append(['reader', r, rng.randrange(len(sizes))])
                readers.add(r)
            elif q < .3 and len(its) < 6:
                i = min(set(range(16)) - set(its))
                its[i] = 1
                ops.append(['el', i, rng.choice(sorted(readers))])
            elif q < .34 and its:
                i = rng.choice(sorted(its))
                del its[i]
                ops.append(['drop', i])
            elif q < .42:
                ops.append([rng.choice(['all', 'same', 'same']), rng.randrange(len(sizes))])
            elif its:
                i = rng.choice(sorted(its))
                ops += [['next', i]] * rng.choice([1, 1, 2, 5, 12])
        for r in readers:
            ops.append(['unread', r])
        for i in sorted(its):                          # run to the end and beyond
            ops += [['next', i]] * rng.choice([0, 3, 45])
        scs.append(dump_scripts(ctx, sizes, ops + [['same', i] for i in range(len(sizes))]))
    k = len(scs) * 3 // 4
    ctx.check(DumpIters('random'), scs[:k], pin=2)
    ctx.check(DumpIters('together'), scs[k:], pin=2, together=4)


# ---------------------------------------------------------------- C24
NEED = list(apidb.SCHEMA)
INTS = {c for t in NEED for c in apidb.SCHEMA[t] if c in ('id', 'version', 'changeset_id', 'user_id', 'latitude', 'longitude', 'sequence_id', 'member_id', 'num_changes') or c.endswith('_id') and c != 'redaction_id'}
INTS |= {'tile'}
NARROW = {'latitude', 'longitude', 'num_changes'}       # columns of 32 bits
TIMES = {('nodes', 'timestamp'), ('ways', 'timestamp'), ('relations', 'timestamp'), ('changesets', 'created_at'), ('changesets', 'closed_at')}
FLAGS = {('nodes', 'visible'), ('ways', 'visible'), ('relations', 'visible')}


def sound(table, column, text):
    """Is this a value of the column? Only columns that must have a value are judged."""
    if column in INTS:
        return bool(re.fullmatch(r'-?\d+', text or '')) and -(1 << (31 if column in NARROW else 63)) <= int(text) < 1 << (31 if column in NARROW else 63)
    if (table, column) in TIMES:
        m = re.fullmatch(r'(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)(\.\d+)?', text or '')
        try:
            return bool(m and datetime.datetime.strptime(m[1], '%Y-%m-%d %H:%M:%S'))
        except ValueError:
            return False
    if (table, column) in FLAGS:
        return text in ('t', 'f')
    if column == 'member_type':
        return text in ('Node', 'Way', 'Relation')
    return True


CHILD = dict(node_tags=('n', 'node_id'), way_tags=('w', 'way_id'), way_nodes=('w', 'way_id'), relation_tags=('r', 'relation_id'), relation_members=('r', 'relation_id'))


class Damage(Family):
    spec = 'TraceDamage'

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        d = apidb.DumpFiles(sc['dir'])
        whole = d.error is None
        if not whole:                                 # the table of contents was cut: what it was before
            d = apidb.DumpFiles.__new__(apidb.DumpFiles)
            d.dir, d.error, d.toc, d.tables, d.types, d.enums, d.cache = sc['dir'], None, *sc['toc'], {}
        facts = {}
        rows = {}
        for t in NEED:
            n = 'public.' + t
            x = d.lines(n)
            data = open(os.path.join(sc['dir'], d.tables[n][1]), 'rb').read() if x else b''
            bad = 0
            rows[t] = []
            for l in x[0] if x else []:
                if l == b'\\.':                        # the end of data marker without its line feed
                    continue
                c = l.split(b'\t')
                try:
                    txt = [apidb.decode(v) for v in c]
                    r = dict(zip(d.tables[n][0], txt))
                    ok = len(c) == len(d.tables[n][0]) and all(sound(t, k, v) for k, v in r.items())
                except UnicodeDecodeError:
                    ok = False
                bad += not ok
                if ok:
                    rows[t].append(r)
            marker = 'whole' if b'\n\\.\n' in b'\n' + data else 'open' if (b'\n' + data).endswith(b'\n\\.') else 'none'
            facts[t] = dict(listed=n in d.tables, exists=x is not None, marker=marker, bad=bad)
        es = sc['es']
        nums = {v: i for i, v in enumerate(sorted({e[k] for e in es for k in ('id', 'cs', 'uid')} | {int(r['user_id']) for r in rows['changesets']} | {int(r['id']) for r in rows['changesets'] + rows['users']}
                                                  | {e['id'] for e in ob.get('els', []) if e['t'] != 's'} | {int(r[k]) for t, k in apidb.IDCOL.items() for r in rows[t]}
                                                  | {int(r[i]) for t, (_, i) in CHILD.items() for r in rows[t]}))}
        srt = lambda e: dict(e, tags=sorted(e['tags']), ts=e['ts'] // 1000 * 1000) if e['t'] != 's' else e
        f = lambda e: keyed(srt(e), nums)
        have = {(t[0], int(r[k]), int(r['version'])) for t, k in apidb.IDCOL.items() for r in rows[t]}
        want = []
        for t in 'nwr':
            want += [f(e) for e in es if e['t'] == t and (t, e['id'], e['ver']) in have] + [[4, 0, 0, '']]
        alt = want
        if sc.get('row') and sc['row'][0] in CHILD:
            x = f(without(sc))
            alt = [x if w[:3] == x[:3] else w for w in want]
        d = dict(tables=facts, tocwhole=whole, parents=[[t[0], nums[int(r[k])], int(r['version']), nums.get(int(r['changeset_id']), -1)] for t, k in apidb.IDCOL.items() for r in rows[t]],
                 kids=[list(x) for x in sorted({(c, nums[int(r[i])], int(r['version'])) for t, (c, i) in CHILD.items() for r in rows[t]})],
                 owner=[[nums[int(r['id'])], nums[int(r['user_id'])]] for r in rows['changesets']], names=[nums[int(r['id'])] for r in rows['users']])
        bad = overall(ob)
        t = dict(d=d, want=want, alt=alt, got=[f(e) for e in ob.get('els', [])], end=bad if bad != 'ok' else outcome(ob['end']), what=f'dump with {sc["what"]}')
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(sc['dir'], ignore_errors=True)
            shutil.rmtree(sc['tmp'], ignore_errors=True)
        return t

    def explain(self, trace, pos):
        g = trace['got'][pos] if pos < len(trace['got']) else ''
        return f'{trace["what"]}: element {pos + 1} of {len(trace["got"])} read ({len(trace["want"])} are there), {g}, the end was {trace["end"]}'

    @staticmethod
    def mutate(t, rng):
        if t['end'] == 'ok':
            t['got'] = t['got'][:-1]
        elif not t['d']['tocwhole'] or any(x['marker'] == 'open' for x in t['d']['tables'].values()):
            t['got'] = t['want'] + t['want'][-1:]
        else:
            t['end'], t['got'] = 'ok', t['want']
        return t


def without(sc):
    """The element that a row belonged to which is broken now, without what the row held: the dump
    does not say any more where it belongs."""
    t, cols, row, rows = sc['row']
    get = lambda r: dict(zip(cols, [apidb.decode(c.encode('latin-1')) for c in r.split('\t')]))
    r = get(row)
    kind, key = CHILD[t]
    own = (int(r[key]), int(r['version']))
    e = dict(next(e for e in sc['es'] if (e['t'], e['id'], e['ver']) == (kind,) + own))
    if 'k' in r:
        e['tags'] = [x for x in e['tags'] if x[0] != r['k']]
    else:
        k = 'refs' if t == 'way_nodes' else 'mem'
        seqs = sorted(int(x['sequence_id']) for x in map(get, rows) if (int(x[key]), int(x['version'])) == own)
        i = seqs.index(int(r['sequence_id']))
        e[k] = e[k][:i] + e[k][i + 1:]
    return e


def damaged(ctx, base, what, f, row=None):
    """A copy of the dump base, changed by f(directory). row: the table, its columns, the row that was
    broken and all rows."""
    d = ctx.path('.dump')
    shutil.copytree(base['dir'], d)
    f(d)
    return dict(kind='adbr', dir=d, tmp=d + '.tmp', es=base['es'], toc=base['toc'], what=what, row=row)


def C24(ctx):
    rng = ctx.rng
    ctx.model('DumpDamageMC')
    fam = Damage('damaged')
    if ctx.only and not ctx.only & {'damaged', 'whole'}:
        return
    scs, whole = [], []

    def base(n, **kw):
        d = ctx.path('.dump')
        es = content(rng, n)
        apidb.write_dump(d, es, rng, **kw)
        f = apidb.DumpFiles(d)
        return dict(dir=d, es=es, toc=(f.toc, f.tables, f.types, f.enums), file={t: f.tables['public.' + t][1] for t in NEED}, cols={t: f.tables['public.' + t][0] for t in NEED})

    def edit(name, g):
        def f(d):
            p = os.path.join(d, name)
            data = open(p, 'rb').read()
            with open(p, 'wb') as h:
                h.write(g(data))
        return f
    for _ in range(ctx.scale(5, 40)):
        b = base(rng.choice([6, 12, 25]), order=rng.choice(['shuffle', 'plain']), extra=rng.random() < .5)
        whole.append(damaged(ctx, b, 'no damage', lambda d: None))
        for t in NEED:
            name = b['file'][t]
            size = os.path.getsize(os.path.join(b['dir'], name))
            data = open(os.path.join(b['dir'], name), 'rb').read()
            end = data.rindex(b'\\.')
            lines = [i + 1 for i, c in enumerate(data) if c == 10]
            cuts = {0, end, end + 1, end + 2, end + 3} | set(rng.sample(range(size), min(size, 3))) | set(rng.sample(lines, min(len(lines), 2)))
            for c in sorted(cuts):
                if c < size:
                    scs.append(damaged(ctx, b, f'{t} cut at {c} of {size}', edit(name, lambda x: x[:c])))
            scs.append(damaged(ctx, b, f'the file of {t} missing', lambda d: os.unlink(os.path.join(d, name))))
            rows = data[:end].split(b'\n')[:-1]
            if not rows:
                continue
            k = rng.randrange(len(rows))

            def change(g):
                if not g(rows[k]):                      # an empty line is no row
                    return lambda d: None
                return edit(name, lambda x: b'\n'.join(rows[:k] + [g(rows[k])] + rows[k + 1:]) + b'\n' + x[end:])
            broken = (t, b['cols'][t], rows[k].decode('latin-1'), [r.decode('latin-1') for r in rows if r])
            scs.append(damaged(ctx, b, f'a row of {t} with one column', change(lambda r: r.split(b'\t')[0]), row=broken))
            scs.append(damaged(ctx, b, f'a row of {t} with half of the columns', change(lambda r: b'\t'.join(r.split(b'\t')[:2])), row=broken))

            def cell(i, v):
                def g(r):
                    c = r.split(b'\t')
                    c[i] = v
                    return b'\t'.join(c)
                return g
            for i, c in enumerate(b['cols'][t]):
                vs = []
                if c in INTS:
                    vs = [b'x', b'', b'\\N', b'1x', b'0x1', b' 1', b'1.5', str(1 << (31 if c in NARROW else 63)).encode()]
                elif (t, c) in TIMES:
                    vs = [b'', b'\\N', b'yesterday', b'2020-02-30 00:00:00', b'2020-01-01', b'2020-01-01 24:00:00', b'2020-01-01 00:00']
                elif (t, c) in FLAGS:
                    vs = [b'', b'\\N', b'x', b'tf']
                elif c == 'member_type':
                    vs = [b'', b'\\N', b'node', b'Changeset']
                if vs:
                    scs.append(damaged(ctx, b, f'a row of {t} with a broken {c}', change(cell(i, rng.choice(vs))), row=broken))
            for c in ('k', 'v', 'member_role', 'display_name'):
                if c in b['cols'][t]:
                    scs.append(damaged(ctx, b, f'a row of {t} with a {c} that is not text', change(cell(b['cols'][t].index(c), rng.choice([b'\xff', b'a\xc3', b'\xe6\x97'])))))
            if t in ('nodes', 'ways', 'relations', 'changesets', 'users'):
                for k in rng.sample(range(len(rows)), min(len(rows), 3)):
                    scs.append(damaged(ctx, b, f'a row of {t} missing', edit(name, lambda x: b''.join(r + b'\n' for r in rows[:k] + rows[k + 1:]) + x[end:])))
        # the table of contents
        toc = open(os.path.join(b['dir'], 'toc.dat'), 'rb').read()
        for c in sorted(rng.sample(range(len(toc)), 12)):
            scs.append(damaged(ctx, b, f'the table of contents cut at {c} of {len(toc)}', edit('toc.dat', lambda x: x[:c])))
        for t in NEED:
            es = [e for e in apidb.parse_toc(toc) if not (e['desc'] == 'TABLE DATA' and e['tag'] == t)]
            for e in es:
                e['file'] = e['file'] or None
            scs.append(damaged(ctx, b, f'the table of contents without {t}', edit('toc.dat', lambda x: apidb.build_toc(es))))
    ctx.check(fam, scs, pin=2)
    ctx.check(named(Damage(''), 'whole'), whole, pin=2)
