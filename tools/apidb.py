"""API database dumps (directory format of pg_dump): an independent reader and writer of the table
of contents and of data files in the COPY text format. Used as adapter between files and TLA+ values
and as generator of dumps that did not come from the library."""
import datetime, os, re
from common import W, hx

EPOCH = datetime.datetime(1970, 1, 1)


# ---------------------------------------------------------------- COPY text
CTL = dict(b='\b', f='\f', n='\n', r='\r', t='\t', v='\v')


def decode(cell):
    """Bytes of a cell to text, None for null. Raises on malformed text."""
    if cell == b'\\N':
        return None
    if b'\\' not in cell:
        return cell.decode()
    out = bytearray()
    i = 0
    while i < len(cell):
        c = cell[i:i + 1]
        i += 1
        if c != b'\\' or i == len(cell):
            out += c
            continue
        m = re.match(rb'[0-7]{1,3}', cell[i:i + 3])
        x = re.match(rb'x([0-9a-fA-F]{1,2})', cell[i:i + 3])
        if m:
            out.append(int(m.group(0), 8) & 255)
            i += len(m.group(0))
        elif x:
            out.append(int(x.group(1), 16))
            i += len(x.group(0))
        else:
            e = cell[i:i + 1].decode('latin1')
            out += CTL.get(e, e).encode('latin1')
            i += 1
    return out.decode()


def encode(text):
    m = {'\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\v': '\\v'}
    return ''.join(m.get(c, c) for c in text).encode()


def encode_odd(text, rng):
    """Any other way to write the same text. The line stays valid UTF-8, as PostgreSQL asks: of a
    character of several bytes all are written as escapes or none is."""
    out = b''
    for i, ch in enumerate(text):
        bs = ch.encode()
        nxt = text[i + 1:i + 2].encode()
        if len(bs) > 1:
            if rng.random() < .5:
                out += bs
            else:
                for c in bs:
                    q = rng.random()
                    out += b'\\x%02x' % c if q < .4 else b'\\x%02X' % c if q < .6 else b'\\%03o' % c if q < .9 or c + 256 > 511 else b'\\%o' % (c + 256)
            continue
        c, ch = bs[0], bs
        q = rng.random()
        if q < .2 and c:
            o = b'%o' % c
            short = len(o) == 3 or not re.match(rb'[0-7]', nxt) and rng.random() < .5
            out += b'\\' + (o if short else o.rjust(3, b'0'))
        elif q < .4 and c:
            h = b'%x' % c
            short = len(h) == 2 or not re.match(rb'[0-9a-fA-F]', nxt) and rng.random() < .5
            out += b'\\x' + (h if short else h.rjust(2, b'0'))
        elif q < .6 and ch.isalnum() is False and c not in b'\n\r\t\0.':
            out += b'\\' + ch
        elif q < .7 and ch in b'acdeghijklmopqsuwyzABCDEFGHIJKLMOPQRSTUVWXYZ' and ch not in b'xN':
            out += b'\\' + ch
        elif c in b'\\\t\n\r' or (c in b'\b\f\v' and q < .9):
            out += encode(chr(c))
        else:
            out += ch
    return out


# ---------------------------------------------------------------- table of contents
def parse_toc(d):
    if d[:5] != b'PGDMP':
        raise ValueError('not an archive')
    p = 5
    maj, mnr, rev, intsize, offsize, fmt = d[5:11]
    p = 11

    def I():
        nonlocal p
        s, v = d[p], int.from_bytes(d[p + 1:p + 1 + intsize], 'little')
        if p + 1 + intsize > len(d):
            raise ValueError('truncated')
        p += 1 + intsize
        return -v if s else v

    def S():
        nonlocal p
        n = I()
        if n < 0:
            return None
        if p + n > len(d):
            raise ValueError('truncated')
        v = d[p:p + n]
        p += n
        return v.decode()
    for _ in range(8):
        I()
    S(), S(), S()
    out = []
    for _ in range(I()):
        e = dict(id=I(), dumper=I(), tableoid=S(), oid=S(), tag=S(), desc=S(), section=I(), defn=S(), drop=S(), copy=S(), ns=S(), ts=S(), am=S(), owner=S(), oids=S())
        e['deps'] = []
        while True:
            x = S()
            if x is None:
                break
            e['deps'].append(x)
        e['file'] = S()
        out.append(e)
    if p != len(d):
        raise ValueError('bytes after the last entry')
    return out


def build_toc(entries):
    b = bytearray(b'PGDMP' + bytes([1, 14, 0, 4, 8, 3]))

    def I(v):
        b.append(1 if v < 0 else 0)
        b.extend(abs(v).to_bytes(4, 'little'))

    def S(s):
        if s is None:
            I(-1)
        else:
            e = s.encode()
            I(len(e))
            b.extend(e)
    for v in (0, 18, 47, 15, 13, 11, 122, 0):
        I(v)
    S('openstreetmap'), S('15.1 (Debian 15.1-1.pgdg110+1)'), S('15.1 (Debian 15.1-1.pgdg110+1)')
    I(len(entries))
    for k, e in enumerate(entries):
        I(e.get('id', 200 + k)), I(1 if e.get('file') else 0), S('0'), S(str(17000 + k)), S(e['tag']), S(e['desc']), I(3 if e.get('file') else 2)
        S(e.get('defn')), S(e.get('drop', '')), S(e.get('copy')), S('public'), S(''), S(e.get('am', '')), S('postgres'), S('false')
        for x in e.get('deps', []):
            S(x)
        I(-1)
        S(e.get('file') or '')
    return bytes(b)


COPY = re.compile(r'^COPY (.+?) \((.*)\) FROM stdin;\n?$')


def tables(entries):
    """name -> (columns, file) of the data entries"""
    r = {}
    for e in entries:
        if e['desc'] == 'TABLE DATA':
            m = COPY.match(e['copy'] or '')
            if not m:
                raise ValueError('copy statement ' + str(e['copy']))
            r[m.group(1)] = ([c.strip('"') for c in m.group(2).split(', ')], e['file'])
    return r


def types(entries):
    """table -> column -> (type, nullable), and the values of enumerations"""
    enums, cols = {}, {}
    for e in entries:
        if e['desc'] == 'TYPE':
            m = re.match(r'CREATE TYPE (\S+) AS ENUM \((.*)\)', e['defn'], re.S)
            if m:
                enums[m.group(1)] = set(re.findall(r"'([^']*)'", m.group(2)))
        elif e['desc'] == 'TABLE':
            m = re.match(r'CREATE TABLE (\S+) \((.*)\)', e['defn'], re.S)
            c = {}
            for l in m.group(2).split('\n'):
                l = l.strip().rstrip(',')
                if not l or l.startswith('CONSTRAINT'):
                    continue
                name, rest = l.split(' ', 1)
                null = 'NOT NULL' not in rest
                t = re.split(r' DEFAULT | NOT NULL', rest)[0].strip()
                c[name.strip('"')] = (t, null)
            cols[m.group(1)] = c
    return cols, enums


RANGE = dict(bigint=63, integer=31, smallint=15)
TS = re.compile(r'^(-?\d{4,6})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?$')


def seconds(text):
    m = TS.match(text)
    y, mo, d, h, mi, s = map(int, m.groups()[:6])
    k = 0
    while y < 1:                                   # the calendar repeats every 400 years
        y, k = y + 400, k + 1
    while y > 9999:
        y, k = y - 400, k - 1
    t = datetime.datetime(y, mo, d, h, mi, s) - EPOCH
    return t.days * 86400 + t.seconds - k * 146097 * 86400


def valid(text, t, null, enums):
    """Is this cell a value of the declared type?"""
    if text is None:
        return null
    try:
        if t in RANGE:
            return re.fullmatch(r'-?\d+', text) is not None and -(1 << RANGE[t]) <= int(text) < 1 << RANGE[t]
        if t == 'boolean':
            return text in ('t', 'f')
        if t.startswith('timestamp'):
            seconds(text)
            return True
        if t == 'double precision':
            float(text)
            return True
        if t in enums:
            return text in enums[t]
        return '\0' not in text
    except (ValueError, AttributeError):
        return False


# ---------------------------------------------------------------- data files
TOCS = {}


class DumpFiles:
    """The files of a dump, raw and typed."""
    def __init__(self, d):
        self.dir = d
        self.error = None
        try:
            if not os.path.isfile(os.path.join(d, 'toc.dat')):
                raise ValueError('no table of contents')
            toc = open(os.path.join(d, 'toc.dat'), 'rb').read()
            if toc not in TOCS:
                e = parse_toc(toc)
                if len(TOCS) > 20:
                    TOCS.clear()
                TOCS[toc] = (e, tables(e), *types(e))
            self.toc, self.tables, self.types, self.enums = TOCS[toc]
        except Exception as e:
            self.error, self.toc, self.tables, self.types, self.enums = str(e), [], {}, {}, {}
        self.cache = {}

    def lines(self, name):
        """rows as bytes, number of end markers, whether the marker is the last line"""
        if name not in self.cache:
            p = os.path.join(self.dir, self.tables[name][1]) if name in self.tables else None
            if not p or not os.path.isfile(p):
                self.cache[name] = None
            else:
                data = open(p, 'rb').read()
                ls = data.split(b'\n')
                tail = ls.pop() if ls else b''       # what follows the last line feed
                while b'\\.' in ls and ls[-1] == b'':       # pg_dump adds empty lines after the end marker
                    ls.pop()
                last = tail == b'' and bool(ls) and ls[-1] == b'\\.'
                self.cache[name] = ([l for l in ls if l != b'\\.'] + ([tail] if tail else []), sum(l == b'\\.' for l in ls), last)
        return self.cache[name]

    def report(self, name):
        """What C17 asks of one data file."""
        r = dict(table=name, exists=False, markers=0, last=False, badwidth=0, badvalue=0, rows=0)
        x = self.lines(name)
        if x is None:
            return r
        cols = self.tables[name][0]
        r.update(exists=True, markers=x[1], last=x[2], rows=len(x[0]))
        ty = self.types.get(name, {})
        for l in x[0]:
            c = l.split(b'\t')
            if len(c) != len(cols):
                r['badwidth'] += 1
                continue
            for cell, n in zip(c, cols):
                t, null = ty.get(n, ('text', True))
                try:
                    ok = valid(decode(cell), t, null, self.enums)
                except UnicodeDecodeError:
                    ok = False
                r['badvalue'] += not ok
        return r

    def rows(self, name):
        """Rows as dicts of texts by column name; cells that cannot be read become a marker."""
        x = self.lines('public.' + name)
        if x is None:
            return []
        cols = self.tables['public.' + name][0]
        out = []
        for l in x[0]:
            r = {}
            cells = l.split(b'\t')
            for n, c in zip(cols, cells):
                try:
                    r[n] = decode(c)
                except UnicodeDecodeError:
                    r[n] = '\0bad'
            for n in cols[len(cells):]:
                r[n] = '\0missing'
            out.append(r)
        return out


BAD = [99, 99, 99, 99, 99]


def wi(s):
    return W(int(s)) if s is not None and re.fullmatch(r'-?\d+', s) else BAD


def sm(s):
    v = int(s) if s is not None and re.fullmatch(r'-?\d+', s) else -1
    return v if abs(v) < 1 << 30 else -1


def ws(s):
    try:
        return W(seconds(s))
    except (ValueError, AttributeError, TypeError):
        return BAD


def tx(s):
    return 'null' if s is None else hx(s)


MT = dict(Node='n', Way='w', Relation='r')
MTR = dict(MT, n='n', w='w', r='r')
IDCOL = dict(nodes='node_id', ways='way_id', relations='relation_id')


def b(s):
    return {'t': True, 'f': False}.get(s, 'bad')


def main_row(r, id, node):
    o = dict(id=wi(r.get(id)), ver=wi(r.get('version')), cs=wi(r.get('changeset_id')), vis=b(r.get('visible')), ts=ws(r.get('timestamp')))
    if node:
        o.update(lat=wi(r.get('latitude')), lon=wi(r.get('longitude')), tile=wi(r.get('tile')))
    return o


def typed(f):
    """All tables of interest as TLA+ values."""
    o = {}
    for k, id in IDCOL.items():
        o[k] = [main_row(r, id, k == 'nodes') for r in f.rows(k)]
        o['current_' + k] = [main_row(r, 'id', k == 'nodes') for r in f.rows('current_' + k)]
    for k in ('node', 'way', 'relation'):
        o[k + '_tags'] = [[wi(r.get(k + '_id')), wi(r.get('version')), tx(r.get('k')), tx(r.get('v'))] for r in f.rows(k + '_tags')]
        o[f'current_{k}_tags'] = [[wi(r.get(k + '_id')), tx(r.get('k')), tx(r.get('v'))] for r in f.rows(f'current_{k}_tags')]
    o['way_nodes'] = [[wi(r.get('way_id')), wi(r.get('version')), sm(r.get('sequence_id')), wi(r.get('node_id'))] for r in f.rows('way_nodes')]
    o['current_way_nodes'] = [[wi(r.get('way_id')), sm(r.get('sequence_id')), wi(r.get('node_id'))] for r in f.rows('current_way_nodes')]
    mem = lambda r, v, m: [wi(r.get('relation_id'))] + ([wi(r.get('version'))] if v else []) + [
        sm(r.get('sequence_id')), m.get(r.get('member_type'), 'bad'), wi(r.get('member_id')), tx(r.get('member_role'))]
    o['relation_members'] = [mem(r, True, MTR) for r in f.rows('relation_members')]
    o['current_relation_members'] = [mem(r, False, MT) for r in f.rows('current_relation_members')]
    o['users'] = [dict(id=wi(r.get('id')), name=tx(r.get('display_name'))) for r in f.rows('users')]
    o['changesets'] = [dict(id=wi(r.get('id')), uid=wi(r.get('user_id'))) for r in f.rows('changesets')]
    o['changeset_tags'] = [[wi(r.get('changeset_id')), tx(r.get('k')), tx(r.get('v'))] for r in f.rows('changeset_tags')]
    return o


# ---------------------------------------------------------------- dumps by another writer
SCHEMA = {
    'nodes': 'node_id latitude longitude changeset_id visible timestamp tile version redaction_id',
    'node_tags': 'node_id version k v',
    'ways': 'way_id changeset_id timestamp version visible redaction_id',
    'way_nodes': 'way_id node_id version sequence_id',
    'way_tags': 'way_id k v version',
    'relations': 'relation_id changeset_id timestamp version visible redaction_id',
    'relation_members': 'relation_id member_type member_id member_role version sequence_id',
    'relation_tags': 'relation_id k v version',
    'changesets': 'id user_id created_at min_lat max_lat min_lon max_lon closed_at num_changes',
    'users': 'email id pass_crypt creation_time display_name data_public description home_lat home_lon home_zoom pass_salt email_valid new_email '
             'creation_ip languages status terms_agreed consider_pd auth_uid preferred_editor terms_seen description_format changesets_count '
             'traces_count diary_entries_count image_use_gravatar auth_provider home_tile tou_agreed',
}
SCHEMA = {k: v.split() for k, v in SCHEMA.items()}


def stamp(ms, rng=None):
    t = EPOCH + datetime.timedelta(seconds=ms // 1000)
    s = t.strftime('%Y-%m-%d %H:%M:%S')
    if t.year < 1000:
        s = f'{t.year:04d}' + s[s.index('-'):]
    if rng and rng.random() < .2:
        s += '.' + str(rng.randint(1, 999999)).rjust(6, '0').rstrip('0')
    return s


def write_dump(d, els, rng, odd=False, order='shuffle', extra=True, spare=True):
    """A valid dump of these elements as another program might write it."""
    os.makedirs(d, exist_ok=True)
    T = {k: [] for k in SCHEMA}
    if isinstance(odd, dict):                        # the cells to use for a text
        def enc(s):
            if s not in odd:
                return encode(s)
            odd[s].append(odd[s].pop(0))
            return odd[s][-1]
    else:
        enc = (lambda s: encode_odd(s, rng) if rng.random() < .7 else encode(s)) if odd else encode
    num = lambda v: str(v).encode()
    null = b'\\N'
    users, css = {}, {}
    for e in els:
        users[e['uid']] = e['user']
        css[e['cs']] = e['uid']
        tbl, idc = dict(n=('nodes', 'node_id'), w=('ways', 'way_id'), r=('relations', 'relation_id'))[e['t']]
        r = {idc: num(e['id']), 'changeset_id': num(e['cs']), 'visible': b't' if e['vis'] else b'f', 'timestamp': stamp(e['ts'], rng).encode(),
             'version': num(e['ver']), 'redaction_id': null if rng.random() < .9 else num(rng.randint(1, 99))}
        if e['t'] == 'n':
            r.update(latitude=num(e['lat'] // 100), longitude=num(e['lon'] // 100), tile=num(rng.randint(0, (1 << 32) - 1)))
        T[tbl].append(r)
        for k, v in e['tags']:
            T[tbl[:-1] + '_tags'].append({idc: num(e['id']), 'version': num(e['ver']), 'k': enc(k), 'v': enc(v)})
        gap = rng.choice([1, 1, 1, 3])
        for i, x in enumerate(e.get('refs', [])):
            T['way_nodes'].append(dict(way_id=num(e['id']), node_id=num(x), version=num(e['ver']), sequence_id=num(1 + i * gap)))
        for i, m in enumerate(e.get('mem', [])):
            T['relation_members'].append(dict(relation_id=num(e['id']), member_type=dict(n=b'Node', w=b'Way', r=b'Relation')[m[0]], member_id=num(m[1]), member_role=enc(m[2]),
                                              version=num(e['ver']), sequence_id=num(1 + i * gap)))
    if spare:                                        # users without changesets, changesets without elements
        for _ in range(rng.randint(0, 3)):
            u = rng.randint(10**6, 10**7)
            users.setdefault(u, f'spare{u}')
            css.setdefault(rng.randint(10**9, 10**10), u)
    for c, u in css.items():
        t = stamp(rng.randint(0, 2_000_000_000) * 1000, rng).encode()
        box = [null] * 4 if rng.random() < .3 else [num(x) for x in (-900000000, 900000000, -1800000000, 1800000000)]
        T['changesets'].append(dict(id=num(c), user_id=num(u), created_at=t, min_lat=box[0], max_lat=box[1], min_lon=box[2], max_lon=box[3], closed_at=t,
                                    num_changes=num(rng.choice([0, 1, 50000]))))
    opt = lambda v: rng.choice([null, v])
    boo = lambda: rng.choice([b't', b'f'])
    for u, n in users.items():
        T['users'].append(dict(email=enc(rng.choice([f'u{u}@example.com', 'odd\\mail@example.com'])), id=num(u), pass_crypt=b'00', creation_time=stamp(1234567890000, rng).encode(),
                               display_name=enc(n), data_public=boo(), description=enc(rng.choice(['', n, 'multi\nline\\text'])), home_lat=opt(b'51.5'), home_lon=opt(b'-0.1275'),
                               home_zoom=opt(b'3'), pass_salt=opt(b'salt'), email_valid=boo(), new_email=opt(b'x@y.z'), creation_ip=opt(b'127.0.0.1'), languages=opt(b'en,de'),
                               status=rng.choice([b'pending', b'active', b'confirmed', b'suspended', b'deleted']), terms_agreed=opt(stamp(1334567890000, rng).encode()),
                               consider_pd=boo(), auth_uid=opt(b'abc'), preferred_editor=opt(b'id'), terms_seen=boo(), description_format=rng.choice([b'html', b'markdown', b'text']),
                               changesets_count=num(1), traces_count=num(0), diary_entries_count=num(0), image_use_gravatar=boo(), auth_provider=opt(b'openid'), home_tile=opt(num(3221225472)),
                               tou_agreed=opt(stamp(1434567890000, rng).encode())))
    entries = []
    nums = rng.sample(range(1000, 99999), len(SCHEMA) + 8)
    q = lambda c: '"timestamp"' if c == 'timestamp' else c
    for name, cols in SCHEMA.items():
        cols = list(cols)
        if order != 'plain':
            rng.shuffle(cols)
        rows = T[name]
        if order == 'shuffle':
            rng.shuffle(rows)
        elif order == 'reverse':
            rows.reverse()
        f = f'{nums.pop()}.dat'
        if rng.random() < .5:
            entries.append(dict(tag=name, desc='TABLE', defn=f'CREATE TABLE public.{name} (\n    ' + ',\n    '.join(q(c) + ' text' for c in cols) + '\n);\n', am='heap'))
        entries.append(dict(tag=name, desc='TABLE DATA', copy=f'COPY public.{name} (' + ', '.join(map(q, cols)) + ') FROM stdin;\n', file=f, deps=[str(rng.randint(1, 9999))]))
        with open(os.path.join(d, f), 'wb') as h:
            for r in rows:
                h.write(b'\t'.join(r[c] for c in cols) + b'\n')
            h.write(rng.choice([b'\\.\n', b'\\.\n\n\n']))
    if extra:
        others = ['acls (id, address, k, v, domain, mx)', 'node_tags_old (node_id, version, k, v)', 'current_nodes (id, latitude, longitude, changeset_id, visible, "timestamp", tile, version)',
                  'current_node_tags (node_id, k, v)', 'gps_points (altitude, trackid, latitude, longitude, gpx_id, "timestamp", tile)', 'users_old (id)',
                  '"User Notes" (id, "some text")', 'nothing ()']
        for t in rng.sample(others, rng.randint(0, len(others))):
            f = f'{nums.pop()}.dat'
            entries.append(dict(tag=t.split(' (')[0], desc='TABLE DATA', copy=f'COPY public.{t} FROM stdin;\n', file=f))
            with open(os.path.join(d, f), 'wb') as h:
                h.write(b'\\.\n\n\n')
        if rng.random() < .3:
            entries.append(dict(tag='TABLE x', desc='COMMENT', defn="COMMENT ON TABLE public.users_old IS 'A COPY of the users';\n"))
        for s in ('nodes_pkey', 'users_id_seq'):
            entries.append(dict(tag=s, desc='CONSTRAINT', defn=f'ALTER TABLE ONLY public.x ADD CONSTRAINT {s} PRIMARY KEY (id);\n'))
    rng.shuffle(entries)
    with open(os.path.join(d, 'toc.dat'), 'wb') as h:
        h.write(build_toc(entries))
