"""An OSM PBF codec written from the published format, independent of the library under test.

The parser keeps the wire structure (deltas, string indexes, optional fields): what it means is
decided by spec/PbfFormat.tla. decode_block is a second decoder for files too large for that."""
import zlib

M64 = 1 << 64


class Bad(Exception):
    pass


# ------------------------------------------------------------------ protobuf
def uvarint(b, p):
    r = s = 0
    while True:
        if p >= len(b):
            raise Bad('varint cut')
        c = b[p]
        p += 1
        r |= (c & 127) << s
        if c < 128:
            return r & (M64 - 1), p
        s += 7
        if s > 70:
            raise Bad('varint too long')


def i64(u):
    return u - M64 if u >= M64 >> 1 else u


def zz(u):
    return (u >> 1) ^ -(u & 1)


def fields(b):
    r = []
    p = 0
    while p < len(b):
        k, p = uvarint(b, p)
        f, w = k >> 3, k & 7
        if w == 0:
            v, p = uvarint(b, p)
        elif w == 2:
            n, p = uvarint(b, p)
            if p + n > len(b):
                raise Bad('field cut')
            v = b[p:p + n]
            p += n
        elif w == 1:
            v, p = b[p:p + 8], p + 8
        elif w == 5:
            v, p = b[p:p + 4], p + 4
        else:
            raise Bad(f'wire type {w}')
        if f == 0:
            raise Bad('field 0')
        r.append((f, w, v))
    return r


def rep(fs, n, conv):
    """A repeated numeric field, packed or not."""
    r = []
    for f, w, v in fs:
        if f == n:
            if w == 0:
                r.append(conv(v))
            else:
                p = 0
                while p < len(v):
                    u, p = uvarint(v, p)
                    r.append(conv(u))
    return r


def opt(fs, n, conv=lambda x: x):
    """An optional field as a list of zero or one values (the last one counts)."""
    r = [conv(v) for f, w, v in fs if f == n]
    return r[-1:]


def enc_uvarint(v):
    v %= M64
    o = bytearray()
    while True:
        if v < 128:
            o.append(v)
            return bytes(o)
        o.append(v & 127 | 128)
        v >>= 7


def enc_zz(v):
    return enc_uvarint((v << 1) ^ (v >> 63) if v >= 0 else ((-v) << 1) - 1)


def fv(n, v):
    return enc_uvarint(n << 3) + enc_uvarint(v)


def fz(n, v):
    return enc_uvarint(n << 3) + enc_zz(v)


def fb(n, b):
    return enc_uvarint(n << 3 | 2) + enc_uvarint(len(b)) + b


def packed(n, vs, z, unpacked=False):
    e = enc_zz if z else enc_uvarint
    if unpacked:
        return b''.join(enc_uvarint(n << 3) + e(v) for v in vs)
    return fb(n, b''.join(e(v) for v in vs)) if vs else b''


# ------------------------------------------------------------------ framing
def frames(data, inflate=True):
    """[(dict)] of the blobs of a file; raises Bad with .good = the frames before the fault."""
    r = []
    p = 0
    try:
        while p < len(data):
            if p + 4 > len(data):
                raise Bad('length cut')
            n = int.from_bytes(data[p:p + 4], 'big')
            if n > 64 * 1024:
                raise Bad('header too large')
            h = data[p + 4:p + 4 + n]
            if len(h) < n:
                raise Bad('header cut')
            hf = fields(h)
            t = opt(hf, 1)
            ds = opt(hf, 3, lambda v: i64(v))
            if not t or not ds:
                raise Bad('header without type or size')
            body = data[p + 4 + n:p + 4 + n + ds[0]]
            if len(body) < ds[0]:
                raise Bad('blob cut')
            if t[0].decode() not in ('OSMHeader', 'OSMData'):   # to be skipped, whatever it holds
                r.append(dict(type=t[0].decode(), start=p, end=p + 4 + n + ds[0], hlen=n, dsize=ds[0], kind='foreign', rawsize=[], size=0, data=None, body=p + 4 + n))
                p += 4 + n + ds[0]
                continue
            bf = fields(body)
            raw, rs, z = opt(bf, 1), opt(bf, 2, i64), opt(bf, 3)
            if raw:
                kind, payload = 'raw', raw[0]
            elif z:
                kind = 'zlib'
                payload = zlib.decompress(z[0]) if inflate else None
            else:
                raise Bad('no data in blob')
            r.append(dict(type=t[0].decode(), start=p, end=p + 4 + n + ds[0], hlen=n, dsize=ds[0], kind=kind, rawsize=rs,
                          size=len(payload) if payload is not None else -1, data=payload, body=p + 4 + n))
            p += 4 + n + ds[0]
    except (Bad, zlib.error, UnicodeDecodeError) as e:
        b = Bad(str(e))
        b.good = r
        raise b
    return r


def frame(t, payload, kind='zlib', rawsize=True, index=None, extra=b'', level=6):
    b = b''
    if kind == 'raw':
        b += fb(1, payload)
        if rawsize:
            b += fv(2, len(payload))
    else:
        z = fb(3, zlib.compress(payload, level))
        b += (fv(2, len(payload)) + z) if rawsize != 'after' else (z + fv(2, len(payload)))
    b += extra
    h = fb(1, t.encode())
    if index is not None:
        h += fb(2, index)
    h += fv(3, len(b))
    return len(h).to_bytes(4, 'big') + h + b


FOREIGN = ['OSMChangeset', 'Index', 'osmdata', 'OSMDat', 'OSMData2', 'OSMHeaders', ' OSMData', 'X', 'Ü', 'OSMDATA', 'OSMheader', 'y' * 130]


def foreign(rng):
    """A blob of a type the format does not know: readers skip it."""
    t = rng.choice(FOREIGN)
    q = rng.random()
    if q < .3:                                         # its contents need not be a blob at all
        b = rng.randbytes(rng.choice([0, 1, 7, 40, 300]))
        h = fb(1, t.encode()) + (fb(2, b'i') if rng.random() < .2 else b'') + fv(3, len(b))
        return len(h).to_bytes(4, 'big') + h + b
    return frame(t, rng.randbytes(rng.choice([0, 3, 90])) if q < .6 else Enc(rng).block([('ways', [dict(t='w', id=77, refs=[5], tags=[])])]), rng.choice(['raw', 'zlib']))


def some_foreign(rng, p=.15):
    """Mostly nothing, sometimes a few such blobs in a row."""
    return b''.join(foreign(rng) for _ in range(rng.choice([1, 1, 2, 4]))) if rng.random() < p else b''


# ------------------------------------------------------------------ blocks
def parse_info(b):
    f = fields(b)
    return dict(ver=opt(f, 1, i64), ts=opt(f, 2, i64), cs=opt(f, 3, i64), uid=opt(f, 4, i64), sid=opt(f, 5), vis=opt(f, 6, bool))


def parse_block(data):
    f = fields(data)
    st = [v for n, w, v in f if n == 1]
    strs = [v for s in st for n, w, v in fields(s) if n == 1]
    blk = dict(strs=strs, gran=opt(f, 17, i64), dgran=opt(f, 18, i64), lato=opt(f, 19, i64), lono=opt(f, 20, i64), groups=[])
    for n, w, v in f:
        if n != 2:
            continue
        g = fields(v)
        grp = dict(nodes=[], dense=[], ways=[], rels=[], other=len([1 for x in g if x[0] == 5]))
        for n2, w2, v2 in g:
            if n2 == 1:
                h = fields(v2)
                grp['nodes'].append(dict(id=zz(opt(h, 1)[0]), keys=rep(h, 2, int), vals=rep(h, 3, int),
                                         info=[parse_info(x) for x in opt(h, 4)], lat=zz(opt(h, 8)[0]), lon=zz(opt(h, 9)[0])))
            elif n2 == 2:
                h = fields(v2)
                inf = []
                for x in opt(h, 5):
                    q = fields(x)
                    inf.append(dict(ver=rep(q, 1, i64), ts=rep(q, 2, zz), cs=rep(q, 3, zz), uid=rep(q, 4, zz), sid=rep(q, 5, zz), vis=rep(q, 6, bool)))
                grp['dense'].append(dict(id=rep(h, 1, zz), info=inf, lat=rep(h, 8, zz), lon=rep(h, 9, zz), kv=rep(h, 10, int)))
            elif n2 == 3:
                h = fields(v2)
                grp['ways'].append(dict(id=i64(opt(h, 1)[0]), keys=rep(h, 2, int), vals=rep(h, 3, int),
                                        info=[parse_info(x) for x in opt(h, 4)], refs=rep(h, 8, zz)))
            elif n2 == 4:
                h = fields(v2)
                grp['rels'].append(dict(id=i64(opt(h, 1)[0]), keys=rep(h, 2, int), vals=rep(h, 3, int),
                                        info=[parse_info(x) for x in opt(h, 4)], roles=rep(h, 8, int), memids=rep(h, 9, zz), types=rep(h, 10, int)))
        blk['groups'].append(grp)
    return blk


def decode_block(blk):
    """Elements of a parsed block as dicts like the driver's (None for absent metadata)."""
    S = [s.decode('utf-8', 'surrogateescape') for s in blk['strs']]
    gran = (blk['gran'] or [100])[0]
    dg = (blk['dgran'] or [1000])[0]
    lato, lono = (blk['lato'] or [0])[0], (blk['lono'] or [0])[0]
    out = []

    def tags(k, v):
        return [[S[a], S[b]] for a, b in zip(k, v)]

    def meta(info):
        i = info[0] if info else dict(ver=[], ts=[], cs=[], uid=[], sid=[], vis=[])
        o = lambda x: x[0] if x else None
        return dict(ver=o(i['ver']), ts=i['ts'][0] * dg if i['ts'] else None, cs=o(i['cs']), uid=o(i['uid']),
                    user=S[i['sid'][0]] if i['sid'] else '', vis=i['vis'][0] if i['vis'] else True)
    for g in blk['groups']:
        for d in g['dense']:
            a = dict(id=0, lat=0, lon=0, ts=0, cs=0, uid=0, sid=0)
            p = 0
            for i in range(len(d['id'])):
                a['id'] += d['id'][i]
                a['lat'] += d['lat'][i]
                a['lon'] += d['lon'][i]
                e = dict(t='n', id=a['id'], lat=lato + gran * a['lat'], lon=lono + gran * a['lon'], ver=None, ts=None, cs=None, uid=None, user='', vis=True)
                if d['info']:
                    f = d['info'][0]
                    for k in ('ts', 'cs', 'uid', 'sid'):
                        if f[k]:
                            a[k] += f[k][i]
                    if f['ver']:
                        e['ver'] = f['ver'][i]
                    if f['ts']:
                        e['ts'] = a['ts'] * dg
                    if f['cs']:
                        e['cs'] = a['cs']
                    if f['uid']:
                        e['uid'] = a['uid']
                    if f['sid']:
                        e['user'] = S[a['sid']]
                    if f['vis']:
                        e['vis'] = f['vis'][i]
                t = []
                while p < len(d['kv']) and d['kv'][p] != 0:
                    t.append([S[d['kv'][p]], S[d['kv'][p + 1]]])
                    p += 2
                p += 1
                e['tags'] = t
                out.append(e)
        for n in g['nodes']:
            out.append(dict(t='n', id=n['id'], lat=lato + gran * n['lat'], lon=lono + gran * n['lon'], tags=tags(n['keys'], n['vals']), **meta(n['info'])))
        for w in g['ways']:
            r, a = [], 0
            for x in w['refs']:
                a += x
                r.append(a)
            out.append(dict(t='w', id=w['id'], refs=r, tags=tags(w['keys'], w['vals']), **meta(w['info'])))
        for w in g['rels']:
            r, a = [], 0
            for x, role, ty in zip(w['memids'], w['roles'], w['types']):
                a += x
                r.append(['nwr'[ty], a, S[role]])
            out.append(dict(t='r', id=w['id'], mem=r, tags=tags(w['keys'], w['vals']), **meta(w['info'])))
    return out


def parse_header(data):
    f = fields(data)
    bb = []
    for v in opt(f, 1):
        g = fields(v)
        bb.append([zz(opt(g, k)[0]) for k in (1, 4, 2, 3)])     # left bottom right top
    s = lambda v: v
    return dict(bbox=bb, req=[v for n, w, v in f if n == 4], opt=[v for n, w, v in f if n == 5], prog=opt(f, 16, s), src=opt(f, 17, s),
                rts=opt(f, 32, i64), rseq=opt(f, 33, i64), rurl=opt(f, 34, s))


def enc_header(req=('OsmSchema-V0.6', 'DenseNodes'), opts=(), bbox=None, prog=None, src=None, rts=None, rseq=None, rurl=None):
    o = b''
    if bbox is not None:
        l, b, r, t = bbox
        o += fb(1, fz(1, l) + fz(2, r) + fz(3, t) + fz(4, b))
    for x in req:
        o += fb(4, x.encode())
    for x in opts:
        o += fb(5, x.encode())
    if prog is not None:
        o += fb(16, prog.encode())
    if src is not None:
        o += fb(17, src.encode())
    if rts is not None:
        o += fv(32, rts)
    if rseq is not None:
        o += fv(33, rseq)
    if rurl is not None:
        o += fb(34, rurl.encode())
    return o


# ------------------------------------------------------------------ a varied encoder
class Enc:
    """Encodes elements in one of the many ways the format allows. o: options, rng: choices."""

    def __init__(self, rng, gran=100, dgran=1000, lato=0, lono=0, unpacked=False, shuffle=False, dup=False, defaults=False, noise=False, reserved=True):
        self.rng, self.gran, self.dgran, self.lato, self.lono = rng, gran, dgran, lato, lono
        self.unpacked, self.shuffle, self.dup, self.defaults, self.noise = unpacked, shuffle, dup, defaults, noise
        self.strs = [b'']
        self.idx = {}

    def s(self, x):
        b = x.encode()
        if self.dup and b in self.idx and self.rng.random() < .3:
            del self.idx[b]
        if b not in self.idx:
            if self.shuffle and self.rng.random() < .3:
                self.strs.append(b'unused%d' % len(self.strs))
            self.idx[b] = len(self.strs)
            self.strs.append(b)
        return self.idx[b]

    def junk(self):
        # fields a reader has to skip
        return self.rng.choice([fb(200, b'xyz'), fv(201, 7), b'']) if self.noise else b''

    def info(self, e):
        o = b''
        if e.get('ver') is not None:
            o += fv(1, e['ver'])
        if e.get('ts') is not None:
            assert e['ts'] % self.dgran == 0
            o += fv(2, e['ts'] // self.dgran)
        if e.get('cs') is not None:
            o += fv(3, e['cs'])
        if e.get('uid') is not None:
            o += fv(4, e['uid'])
        if e.get('user') is not None:
            o += fv(5, self.s(e['user']) if e['user'] else 0)
        if e.get('vis') is not None:
            o += fv(6, int(e['vis']))
        return o

    def tags(self, e):
        k = [self.s(t[0]) for t in e['tags']]
        v = [self.s(t[1]) for t in e['tags']]
        return packed(2, k, False, self.unpacked) + packed(3, v, False, self.unpacked)

    def has_info(self, e):
        return any(e.get(k) is not None for k in ('ver', 'ts', 'cs', 'uid', 'user', 'vis'))

    def q(self, v, off):
        assert (v - off) % self.gran == 0
        return (v - off) // self.gran

    def node(self, e):
        o = fz(1, e['id']) + self.tags(e)
        if self.has_info(e):
            o += fb(4, self.info(e))
        return o + self.junk() + fz(8, self.q(e['lat'], self.lato)) + fz(9, self.q(e['lon'], self.lono))

    def way(self, e):
        d = [b - a for a, b in zip([0] + e['refs'], e['refs'])]
        o = fv(1, e['id']) + self.tags(e)
        if self.has_info(e):
            o += fb(4, self.info(e))
        return o + packed(8, d, True, self.unpacked) + self.junk()

    def rel(self, e):
        ids = [m[1] for m in e['mem']]
        d = [b - a for a, b in zip([0] + ids, ids)]
        o = fv(1, e['id']) + self.tags(e)
        if self.has_info(e):
            o += fb(4, self.info(e))
        o += packed(8, [self.s(m[2]) for m in e['mem']], False, self.unpacked)
        return o + packed(9, d, True, self.unpacked) + packed(10, ['nwr'.index(m[0]) for m in e['mem']], False, self.unpacked) + self.junk()

    def dense(self, es):
        def delta(vs):
            return [b - a for a, b in zip([0] + vs, vs)]
        o = packed(1, delta([e['id'] for e in es]), True, self.unpacked)
        inf = b''
        if es and self.has_info(es[0]):
            if es[0].get('ver') is not None:
                inf += packed(1, [e['ver'] for e in es], False, self.unpacked)
            if es[0].get('ts') is not None:
                inf += packed(2, delta([e['ts'] // self.dgran for e in es]), True, self.unpacked)
            if es[0].get('cs') is not None:
                inf += packed(3, delta([e['cs'] for e in es]), True, self.unpacked)
            if es[0].get('uid') is not None:
                inf += packed(4, delta([e['uid'] for e in es]), True, self.unpacked)
            if es[0].get('user') is not None:
                inf += packed(5, delta([self.s(e['user']) if e['user'] else 0 for e in es]), True, self.unpacked)
            if es[0].get('vis') is not None:
                inf += packed(6, [int(e['vis']) for e in es], False, self.unpacked)
            o += fb(5, inf)
        o += packed(8, delta([self.q(e['lat'], self.lato) for e in es]), True, self.unpacked)
        o += packed(9, delta([self.q(e['lon'], self.lono) for e in es]), True, self.unpacked)
        if any(e['tags'] for e in es) or self.rng.random() < .5:
            kv = []
            for e in es:
                for k, v in e['tags']:
                    kv += [self.s(k), self.s(v)]
                kv.append(0)
            o += packed(10, kv, False, self.unpacked)
        return o + self.junk()

    def block(self, groups):
        """groups: [("dense"|"nodes"|"ways"|"rels", [elements])]"""
        gs = b''
        for k, es in groups:
            if k == 'dense':
                gs += fb(2, fb(2, self.dense(es)) if es else b'')
            else:
                gs += fb(2, b''.join(fb({'nodes': 1, 'ways': 3, 'rels': 4}[k], {'nodes': self.node, 'ways': self.way, 'rels': self.rel}[k](e)) for e in es))
        o = fb(1, b''.join(fb(1, s) for s in self.strs)) + self.junk() + gs
        if self.gran != 100 or not self.defaults:
            o += fv(17, self.gran)
        if self.dgran != 1000 or not self.defaults:
            o += fv(18, self.dgran)
        if self.lato or not self.defaults:
            o += fv(19, self.lato)
        if self.lono or not self.defaults:
            o += fv(20, self.lono)
        return o
