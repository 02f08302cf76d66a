"""C27: PBF files with damaged blobs."""
import json, os, zlib
import gen, pbf
from common import Family
from conv import *
from p_pbf import Cuts, MODES, fill, kform, plain, rm, wide_block
from pbf import fb, fv, fz, packed


# ---------------------------------------------------------------- facts about a blob
def clamp(x):
    """Indexes that no table can have fit the numbers of TLC."""
    if isinstance(x, list):
        return [clamp(v) for v in x]
    return -1 if x >= 1 << 30 else max(x, -1 << 30)


def clamp_block(b):
    for g in b['groups']:
        for d in g['dense']:
            d['kv'] = clamp(d['kv'])
            for i in d['info']:
                i['sid'] = clamp(i['sid'])
        for k in ('nodes', 'ways', 'rels'):
            for x in g[k]:
                for c in ('keys', 'vals', 'roles', 'types'):
                    if c in x:
                        x[c] = clamp(x[c])
                for i in x['info']:
                    i['sid'] = clamp(i['sid'])
    return b


def utf8(s):
    try:
        s.decode()
        return True
    except UnicodeDecodeError:
        return False


def fact(kind, data):
    """What PbfDamage.tla wants to know about a blob, from its bytes."""
    f = dict(kind=kind, read='ok', blk=[], utf8=[])
    no = lambda r: dict(f, read=r)
    try:
        n = int.from_bytes(data[:4], 'big')
        h = pbf.fields(data[4:4 + n])
        if len(data) < 4 + n or not pbf.opt(h, 1) or not pbf.opt(h, 3) or pbf.opt(h, 3, pbf.i64)[0] < 0:
            return no('frame')
    except pbf.Bad:
        return no('frame')
    size = pbf.opt(h, 3, pbf.i64)[0]
    body = data[4 + n:4 + n + size]
    try:
        b = pbf.fields(body)
    except pbf.Bad:
        return no('blob')
    if len(body) < size or not (pbf.opt(b, 1) or pbf.opt(b, 3)):
        return no('blob')
    if pbf.opt(b, 1):
        m = pbf.opt(b, 1)[0]
    else:
        try:
            d = zlib.decompressobj()
            m = d.decompress(pbf.opt(b, 3)[0])
            if not d.eof:
                return no('inflate')
        except zlib.error:
            return no('inflate')
        if pbf.opt(b, 2, pbf.i64) != [len(m)]:
            return no('size')
    try:
        if kind == 'header':
            pbf.fields(m)
        else:
            w = pbf.parse_block(m)
            f.update(utf8=[utf8(s) for s in w['strs']], blk=[wide_block(clamp_block(w))])
    except (pbf.Bad, IndexError, TypeError):
        return no('message')
    return f


# ---------------------------------------------------------------- damage
def strs(*l):
    return fb(1, b''.join(fb(1, s) for s in l))


def group(*l):
    return fb(2, b''.join(l))


def dense(ids=(1, 1), lat=(5, 5), lon=(5, 5), kv=(), info=b''):
    return group(fb(2, packed(1, ids, True) + (fb(5, info) if info else b'') + packed(8, lat, True) + packed(9, lon, True) + packed(10, kv, False)))


def way(keys=(), vals=(), refs=(1, 2), info=b''):
    return group(fb(3, fv(1, 7) + packed(2, keys, False) + packed(3, vals, False) + (fb(4, info) if info else b'') + packed(8, refs, True)))


def rel(roles=(1,), memids=(4,), types=(1,), keys=(), vals=(), info=b''):
    return group(fb(4, fv(1, 7) + packed(2, keys, False) + packed(3, vals, False) + (fb(4, info) if info else b'') + packed(8, roles, False) + packed(9, memids, True) + packed(10, types, False)))


def node(keys=(), vals=(), info=b''):
    return group(fb(1, fz(1, 7) + packed(2, keys, False) + packed(3, vals, False) + (fb(4, info) if info else b'') + fz(8, 3) + fz(9, 3)))


def unreadable(rng):
    """Blocks that are messages but cannot be decoded; each once as named."""
    S = strs(b'', b'a', b'b')
    far = rng.choice([3, 4, 200, 1 << 20, (1 << 31) - 1, (1 << 32) - 1])
    neg = (1 << 64) - rng.choice([1, 2, 1 << 31])
    U = strs(b'', rng.choice([b'\xff', b'a\xc3', b'\xed\xa0\x80', b'\xc0\x80']), b'b')
    cs = group(fb(5, fv(1, 9)))
    good = lambda: rng.choice([dense(), way(), rel(), node(keys=[1], vals=[2]), b''])
    bad = dict(
        dense_key=S + dense(kv=[far, 1, 0, 0]), dense_value=S + dense(kv=[1, 2, 0, 1, far, 0]), dense_key_negative=S + dense(kv=[neg, 1, 0, 0]),
        dense_odd=S + dense(kv=[0, 1]), dense_lat=S + dense(lat=(5,)), dense_lon=S + dense(lon=()), dense_no_places=S + dense(lat=(), lon=()),
        dense_user=S + dense(info=packed(1, [1, 1], False) + packed(5, [1, rng.choice([2, 9, -2])], True)), dense_user_first=S + dense(info=packed(5, [rng.choice([3, -1]), 0], True)),
        node_key=S + node(keys=[far], vals=[1]), node_value=S + node(keys=[1], vals=[far]), node_values=S + node(keys=[1, 2], vals=[1]), node_user=S + node(info=fv(1, 1) + fv(5, far)),
        way_key=S + way(keys=[1, far], vals=[1, 1]), way_value=S + way(keys=[1], vals=[far]), way_values=S + way(keys=[1], vals=[]), way_user=S + way(info=fv(5, far)),
        rel_role=S + rel(roles=[far]), rel_roles=S + rel(roles=[1], memids=[4, 5], types=[0, 2]), rel_types=S + rel(roles=[1, 1], memids=[4, 5], types=[0]),
        rel_type=S + rel(types=[rng.choice([3, 7, 255])]), rel_type_negative=S + rel(types=[neg]), rel_key=S + rel(keys=[far], vals=[1]), rel_values=S + rel(keys=[1, 1, 1], vals=[1, 2]),
        rel_user=S + rel(info=fv(1, 1) + fv(5, far)), no_strings=group() + dense(kv=[1, 2, 0, 0]),
        utf8_value=U + way(keys=[2], vals=[1]), utf8_user=U + dense(info=packed(1, [1, 1], False) + packed(5, [1, 0], True)), utf8_role=U + rel(), utf8_key=U + dense(kv=[1, 2, 0, 0]))
    r = {}
    for k, v in bad.items():
        q = rng.randrange(3)                            # alone, after, before another group of the block
        i = v.index(group()) if k == 'no_strings' else None
        if q == 1 and i is None:
            j = len(strs(b'', b'a', b'b')) if v.startswith(S) else len(U)
            v = v[:j] + good() + v[j:]
        elif q == 2:
            v = v + good()
        r[k] = v
    return r


def flips(rng, b, n):
    b = bytearray(b)
    for _ in range(n):
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)


def raw_frame(t, body, size=None, head=None):
    h = head if head is not None else fb(1, t.encode()) + fv(3, len(body) if size is None else size)
    return len(h).to_bytes(4, 'big') + h + body


def broken_blobs(rng, kind, content):
    """The blob with this content, broken outside the content; name -> bytes."""
    t = 'OSMHeader' if kind == 'header' else 'OSMData'
    z = zlib.compress(content, rng.choice([0, 1, 6, 9]))
    n = len(content)
    r = dict(no_data=fv(2, n), empty=b'', lzma=fv(2, n) + fb(4, z), bzip2=fv(2, n) + fb(5, z), lz4=fv(2, n) + fb(6, z), zstd=fv(2, n) + fb(7, z),
             no_size=fb(3, z), size_small=fv(2, max(0, n - rng.choice([1, 2, 5]))) + fb(3, z), size_large=fv(2, n + rng.choice([1, 2, 700])) + fb(3, z),
             size_negative=fv(2, -rng.choice([1, n or 1])) + fb(3, z), size_huge=fv(2, (1 << 31) - 1) + fb(3, z), size_zero=fv(2, 0) + fb(3, z),
             zlib_cut=fv(2, n) + fb(3, z[:rng.randrange(len(z))]), zlib_cut_end=fv(2, n) + fb(3, z[:-rng.choice([1, 2, 3, 4])]), zlib_none=fv(2, n) + fb(3, b''),
             zlib_sum=fv(2, n) + fb(3, z[:-4] + flips(rng, z[-4:], 1)), zlib_head=fv(2, n) + fb(3, flips(rng, z[:2], 1) + z[2:]),
             zlib_raw=fv(2, n) + fb(3, content or b'x'), deflate=fv(2, n) + fb(3, z[2:-4] or b'x'),
             other=fv(2, n) + fb(3, zlib.compress(content + b'\x0a\x00')), not_blob=b'\xff' * 12, cut_blob=(fv(2, n) + fb(3, z))[:-rng.choice([1, 2, 3])])
    for i in range(6):
        r[f'zlib_bits{i}'] = fv(2, n) + fb(3, flips(rng, z, rng.choice([1, 1, 2, 3, 8])))
    r = {k: raw_frame(t, v) for k, v in r.items()}
    if kind == 'data' and n:
        c = content
        for i in range(3):                               # the message ends within a field
            c = content[:rng.randrange(1, n)]
            r[f'message_cut{i}'] = pbf.frame(t, c, rng.choice(['raw', 'zlib']))
        r['message_not'] = pbf.frame(t, b'\x0b\x0c\xff', rng.choice(['raw', 'zlib']))
    if kind == 'header':
        r['message_not'] = pbf.frame(t, b'\x0b\x0c\xff', rng.choice(['raw', 'zlib']))
    good = fv(2, n) + fb(3, z)
    r['frame_negative'] = raw_frame(t, good, size=-rng.choice([1, 5, 1 << 31]))
    r['frame_not'] = raw_frame(t, good, head=b'\xff\xff\xff')
    r['frame_cut'] = raw_frame(t, good, head=(fb(1, t.encode()) + fv(3, len(good)))[:-rng.choice([1, 4])] if len(good) > 127 else fb(1, t.encode())[:-2])
    r['frame_long'] = (0x7fffffff).to_bytes(4, 'big') + raw_frame(t, good)[4:]
    return r


def damages(rng, blob):
    """The copies of a blob that cannot be read; name -> bytes. What random damage left readable is not among them
    (there are a few changes that the checksum of zlib does not notice)."""
    kind, _, _, content, _ = blob
    d = {k: v for k, v in broken_blobs(rng, kind, content).items() if fact(kind, v)['read'] not in (['ok', 'message'] if 'zlib' in k else ['ok'])}
    if kind == 'data':
        d.update({k: pbf.frame('OSMData', v, rng.choice(['raw', 'zlib'])) for k, v in unreadable(rng).items()})
    return d


# ---------------------------------------------------------------- the check
class Blobs(Family):
    spec = 'TraceBlobs'

    def __init__(self, name):
        self.name = name

    def trace(self, sc, ob):
        els = sc['els']
        got = [k for o in ob.get('cuts', []) for m in MODES for k in Cuts.keys(o[m])]
        ids = {v: i for i, v in enumerate(sorted({k[1] for b in els for k in b} | {k[1] for k in got}))}
        f = lambda l: [kform(k, ids) for k in l]
        ev = []
        for o, d in zip(ob.get('cuts', []), sc['what']):
            e = dict(dmg=d.get('dmg', []), free=d.get('free', 0), name=d['name'])
            for m in MODES:
                x = dict(r=outcome(o[m]['end']))
                if m == 'blocks':
                    x['blocks'] = [[] if 'hdr' in b else f(b['els']) for b in o[m]['els']]
                elif m in ('elements', 'parallel'):
                    x['els'] = f(Cuts.keys(o[m]))
                elif m == 'count':
                    x['c'] = o[m].get('count') or []
                e[m] = x
            ev.append(e)
        if 'cuts' not in ob:
            z = dict(r=overall(ob), els=[], blocks=[], c=[])
            k = Cuts.where(ob)
            d = sc['what'][k] if 0 <= k < len(sc['what']) else dict(name='?')
            ev.append(dict(dmg=d.get('dmg', []), free=d.get('free', 0), name=d['name'], **{m: z for m in MODES}))
        return dict(els=[f(b) for b in els], ev=ev, what=f'file with damage, {sc["tasks"]} tasks')

    @staticmethod
    def mutate(t, rng):
        e = rng.choice(t['ev'])
        m = rng.choice(['elements', 'blocks', 'parallel', 'count'])
        if e['free']:
            e[m]['r'] = 'hang'
        elif e[m]['r'] != 'ok':
            e[m]['r'] = 'ok'
        else:
            e[m]['r'] = 'err'
        return t

    def explain(self, trace, pos):
        e = dict(trace['ev'][pos])
        e['dmg'] = [(d['at'], d['blob']['read']) for d in e['dmg']]
        return f'{trace["what"]}: {e["name"]}: blobs have {[len(b) for b in trace["els"]]} elements; observation {json.dumps(e)[:700]}'


def base_file(rng, path, blocks, headers=(), one=None):
    """A file of small blocks; [(kind, start, end, content, keys)] of its blobs. headers: data blocks that a header comes before."""
    out = b''
    blobs = []

    def put(kind, content, keys):
        nonlocal out
        a = len(out)
        out += pbf.frame('OSMHeader' if kind == 'header' else 'OSMData', content, rng.choice(['raw', 'zlib', 'zlib']), rawsize=True)
        blobs.append((kind, a, len(out), content, keys))
    put('header', pbf.enc_header(), [])
    i = 0
    for b, n in enumerate(blocks):
        if b in headers:
            put('header', pbf.enc_header(prog='middle'), [])
        k = one or rng.choice(['dense', 'nodes', 'ways', 'rels'])
        es = [plain(rng, dict(dense='n', nodes='n', ways='w', rels='r')[k], i + j) for j in range(n)]
        i += n
        content = pbf.Enc(rng).block([(k, es)] if es or rng.random() < .5 else [])
        put('data', content, [[e['t'], e['id'], e['ver']] for e in map(fill, pbf.decode_block(pbf.parse_block(content)))])
    with open(path, 'wb') as f:
        f.write(out)
    return blobs


def scenario(ctx, rng, blobs, path, items, tasks=None):
    """items: name, the blobs that are replaced [(index, bytes)], or random edits."""
    edits, what = [], []
    for it in items:
        if 'edits' in it:
            edits.append(it['edits'])
            what.append(dict(name=it['name'], free=it['free']))
        else:
            edits.append([[blobs[i][1], blobs[i][2] - blobs[i][1], d.hex()] for i, d in it['blobs']])
            what.append(dict(name=it['name'], dmg=[dict(at=i + 1, blob=fact(blobs[i][0], d)) for i, d in it['blobs']]))
    return dict(kind='cuts', path=path, tmp=ctx.path('.cut'), edits=edits, modes=MODES, tasks=tasks or rng.choice([1, 2, 3, 8]), els=[b[4] for b in blobs], what=what, timeout_ms=25000)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def C27(ctx):
    rng = ctx.rng
    ctx.model('PbfDamageMC')
    scs = []
    # every kind of damage to one blob, wherever it is
    for _ in range(ctx.scale(14, 120)):
        p = ctx.path('.pbf')
        nb = rng.choice([1, 2, 3, 4])
        blobs = base_file(rng, p, [rng.choice([0, 1, 2, 4]) for _ in range(nb)], headers=[rng.randrange(1, nb)] if nb > 1 and rng.random() < .5 else [])
        items = [dict(name='nothing', blobs=[])]
        for i in range(len(blobs)):
            items += [dict(name=f'blob {i + 1}: {k}', blobs=[(i, v)]) for k, v in damages(rng, blobs[i]).items()]
        scs += [scenario(ctx, rng, blobs, p, c) for c in chunks(items, 60)]
    ctx.check(Blobs('one-blob'), scs, pin=2)
    # several damaged blobs: as many as there are workers and more
    scs = []
    for _ in range(ctx.scale(16, 150)):
        p = ctx.path('.pbf')
        nb = rng.choice([3, 6, 12, 30])
        blobs = base_file(rng, p, [rng.choice([0, 1, 1, 2]) for _ in range(nb)], one='dense' if rng.random() < .5 else None)
        items = []
        for _ in range(40):
            where = sorted(rng.sample(range(1, nb + 1), rng.randint(2, nb)))
            d = [(i, rng.choice(sorted(damages(rng, blobs[i]).items()))) for i in where]
            items.append(dict(name=f'blobs {[(i + 1, k) for i, (k, _) in d]}', blobs=[(i, v) for i, (_, v) in d]))
        scs += [scenario(ctx, rng, blobs, p, c) for c in chunks(items, 20)]
    ctx.check(Blobs('several'), scs, pin=2)
    ctx.check(Blobs('one-cpu'), scs[::2], pin=1)
    # more damaged blobs than the queue of descriptors holds
    p = ctx.path('.pbf')
    blobs = base_file(rng, p, [1] * 1300, one='dense')
    bad = lambda: pbf.frame('OSMData', rng.choice(list(unreadable(rng).values())), 'raw')
    items = [dict(name='all', blobs=[(i, bad()) for i in range(1, len(blobs))]), dict(name='the last', blobs=[(len(blobs) - 1, bad())]),
             dict(name='the last frame', blobs=[(len(blobs) - 1, broken_blobs(rng, 'data', blobs[-1][3])['frame_negative'])])]
    ctx.check(Blobs('many-blobs'), [scenario(ctx, rng, blobs, p, [x], tasks=t) for x in items for t in (1, 4)], pin=4)
    # bytes changed, removed or added anywhere
    scs = []
    for _ in range(ctx.scale(50, 1000)):
        p = ctx.path('.pbf')
        blobs = base_file(rng, p, [rng.choice([0, 1, 2, 3]) for _ in range(rng.choice([1, 2, 3, 5]))])
        size = blobs[-1][2]
        data = open(p, 'rb').read()
        items = []
        for _ in range(60):
            at = sorted(rng.sample(range(size), rng.choice([1, 1, 1, 2, 4])))
            ed = []
            for a in at:
                q = rng.random()
                if q < .6:
                    ed.append([a, 1, '%02x' % (data[a] ^ 1 << rng.randrange(8))])
                elif q < .75:
                    ed.append([a, 1, '%02x' % rng.choice([0, 1, 127, 128, 255])])
                elif q < .9:
                    ed.append([a, 0, bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 8]))).hex()])
                else:
                    ed.append([a, min(rng.choice([1, 2, 9]), size - a), ''])
            last = 0
            ed = [e for e in ed if (e[0] >= last, last := max(last, e[0] + e[1]))[0]]
            first = next(i for i, b in enumerate(blobs) if ed[0][0] < b[2])
            items.append(dict(name=f'edits {ed}', edits=ed, free=first + 1))
        scs += [scenario(ctx, rng, blobs, p, c) for c in chunks(items, 30)]
    ctx.check(Blobs('anywhere'), scs, pin=2)
    rm(ctx, scs)
