"""Driver elements to the TLA+ forms of OsmModel.tla."""
import hashlib, json
from common import W, hx

RANK = dict(n=1, w=2, r=3, s=4)


def full(e):
    """Full form; absent metadata (None) becomes an absent field marker only where the spec allows it."""
    if e['t'] == 's':
        return dict(t='s')
    r = dict(t=e['t'], id=W(e['id']), ver=W(e['ver']), ts=W(e['ts']), cs=W(e['cs']), uid=W(e['uid']), user=hx(e['user']), vis=e['vis'],
             tags=[[hx(k), hx(v)] for k, v in e['tags']])
    if e['t'] == 'n':
        r['lat'], r['lon'] = W(e['lat']), W(e['lon'])
    elif e['t'] == 'w':
        r['refs'] = [W(x) for x in e.get('refs', [])]
    else:
        r['mem'] = [[m[0], W(m[1]), hx(m[2])] for m in e.get('mem', [])]
    return r


def ranked(e):
    return [RANK[e['t']], full(e)]


def canon(e):
    """Content as stored: equal exactly when two elements are the same after storage in PBF."""
    if e['t'] == 's':
        return 's'
    c = [e['t'], e['id'], e['ver'], e['ts'], e['cs'], e['uid'], e['user'], e['vis'], e['tags']]
    if e['t'] == 'n':
        c += [e['lat'], e['lon']]
    elif e['t'] == 'w':
        c += [e.get('refs', [])]
    else:
        c += [e.get('mem', [])]
    return json.dumps(c)


def token(e):
    return hashlib.blake2b(canon(e).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()


def keyed(e, ids=None, tok=True):
    """Key form. ids: an order preserving renaming of ids (for ids that do not fit TLC)."""
    if e['t'] == 's':
        return [4, 0, 0, '']
    return [RANK[e['t']], ids[e['id']] if ids else e['id'], e['ver'], token(e) if tok else '']


def rename(*lists):
    s = sorted({e['id'] for l in lists for e in l if e['t'] != 's'})
    return {v: i for i, v in enumerate(s)}


def run(v):
    """The synthetic elements of a run (the same as elem.rs run)."""
    out = []
    for k in range(v.get('n', 0)):
        id = v.get('first', 1) + k * v.get('step', 1)
        e = dict(t=v['t'], id=id, ver=v.get('ver', 1), cs=1 + id % 7, uid=1 + id % 3, user=f'u{1 + id % 3}', ts=1000 * (1_600_000_000 + id % 1000), vis=True,
                 lat=100 * (id % 1_800_000_000 - 900_000_000), lon=100 * (id % 3_600_000_000 - 1_800_000_000), tags=[['id', str(id)]])
        if v.get('pad', 0):
            e['tags'].append(['pad', (str(id) if v.get('fresh') else '') + 'x' * v['pad']])
        if v['t'] == 'w':
            e['refs'] = [id, id + 1]
        if v['t'] == 'r':
            e['mem'] = [['n', id, 'a'], ['w', id + 1, 'b']]
        out.append(e)
    return out


def op_elements(op):
    if 'e' in op:
        return [op['e']]
    if 'es' in op:
        return op['es']
    if 'run' in op:
        return run(op['run'])
    if 'runs' in op:
        return [e for r in op['runs'] for e in run(r)]
    return []


def outcome(v):
    """ok, err, panic ... of one driver result."""
    if v == 'ok':
        return 'ok'
    if isinstance(v, dict):
        for k in ('err', 'panic', 'hang', 'crash'):
            if k in v:
                return k
    return 'none'


def overall(ob):
    """How the whole observation ended, if not normally."""
    if ob is None:
        return 'none'
    for k in ('hang', 'crash'):
        if k in ob:
            return k
    for k in ('err', 'panic'):
        if k in ob:
            return k
    return 'ok'
