"""State files as sequences of records: each record is what the specification knows of it
(StateFile.tla) together with the bytes of its line, correct by construction."""
from urllib.parse import quote_from_bytes
from vlib import *

def uri(p): return b'file://' + quote_from_bytes(B(p), safe="/._-()!,=@:;~*'&+$").encode()
W0 = [[0] * 4 for _ in range(4)]

def header(time=0, ver=b'0.6.4'): return dict(tag='PRELOAD', ok=True, same=ver.startswith(b'0.'), time=time), b'PRELOAD\t' + ver + b'\t%d' % time
def map_(i, p, off, ln, unit=1, upd=-1):
    return (dict(tag='MAP', ok=True, id=str(i), key=mapid(B(p), off, ln, unit)[0], raw=(B(p), off, ln)), b'MAP\t%d\t%d\t%d\t%d\t-1\t' % (i, upd, off, ln) + uri(p))
def exe(i, p, upd=0, time=0): return dict(tag='EXE', ok=True, id=str(i), p=enc(p), upd=upd, time=time), b'EXE\t%d\t%d\t%d\t-1\t' % (i, upd, time) + uri(p)
def exemap(e, m, prob=b'1'): return dict(tag='EXEMAP', ok=True, exe=str(e), map=str(m)), b'EXEMAP\t%d\t%d\t' % (e, m) + prob
def markov(a, b, t=0, ttl=('0', '0', '0', '0'), w=W0):
    return (dict(tag='MARKOV', ok=True, a=str(a), b=str(b), t=t, s=[ttl_sum(ttl[k], w[k][k]) for k in range(4)], w=w),
            b'MARKOV\t%d\t%d\t%d' % (a, b, t) + b''.join(b'\t' + x.encode() for x in ttl) + b''.join(b'\t%d' % x for r in w for x in r))
def node(i, e, n, parent): return dict(tag='VOMMNODE', ok=True, id=str(i), exe=str(e), n=n, parent=str(parent)), b'VOMMNODE\t%d\t%d\t%d\t%d' % (i, e, n, parent)
def badexe(p=b'/bin/small', size=3): return dict(tag='BADEXE'), b'BADEXE\t%d\t-1\t' % size + uri(p)
def raw(tag, b): return dict(tag=tag), b
def broken(tag, b): return dict(tag=tag, ok=False), b

def malform(rng, rec):
    """a record whose fields are not all there, or not what they should be"""
    r, b = rec
    tag = r['tag']; f = b.split(b'\t')
    nf = dict(PRELOAD=2, MAP=6, EXE=5, EXEMAP=3, MARKOV=23, VOMMNODE=4).get(tag)
    if nf is None or not r['ok']: return rec
    f = f[:nf + 1]
    x = rng.random()
    if tag == 'PRELOAD':
        return broken(tag, rng.choice([b'PRELOAD', b'PRELOAD\t', b'PRELOAD\t0.6.4', b'PRELOAD\t0.6.4\t', b'PRELOAD\tx\t5', b'PRELOAD\t0.6.4\tx', b'PRELOAD\t.\t1']))
    if x < .4: return broken(tag, b'\t'.join(f[:rng.randint(1, nf)]))
    if x < .5: return broken(tag, b'\t'.join(f[:rng.randint(1, nf)]) + b'\t')
    k = rng.randint(1, nf)
    if tag in ('MAP', 'EXE') and k == nf or x > .85 and tag in ('MAP', 'EXE'):
        f[nf] = rng.choice([b'/bin/a', b'http://h/bin/a', b'file:///%zz', b'file:///a%00b', b'file:///bin%2Fa', b'nothing', b'file://host.x/a', b'FILE', b'file:///%4'])
        if f[nf] == b'file://host.x/a': f[nf] = b'file'
        return broken(tag, b'\t'.join(f))
    f[k] = rng.choice([b'x', b'-', b'q1', b'/', b'#', b'--3', b'%', b'\xff'])
    return broken(tag, b'\t'.join(f))

VERSIONS = [b'1.0.0', b'12.3.4', b'2.0-rc', b'-1.9', b'-7.0.1', b'10.6.4', b'06.6.4', b'1.6.4', b'2147483647.1', b'-2147483648.6']
NAMES = [b'/bin/a', b'/bin/b', b'/bin/c', b'/opt/d e', b'/opt/\xc3\xa9%', b'/x', b'/bin/a#1', b'/' + b'l' * 300, b'/opt/\xff\xfe?&']
LIBS = [b'/lib/la', b'/lib/lb', b'/lib/l c', b'/bin/a', b'/lib/' + b'm' * 480]

def content(rng, big=False, odd=True):
    """a consistent state file, as a list of records"""
    n = rng.choice([0, 1, 2, 3, 4, 6])
    names = rng.sample(NAMES if odd else NAMES[:3], min(n, len(NAMES) if odd else 3)); n = len(names)
    ids = rng.choice([list(range(1, 20)), list(range(0, 20)), [7, 3, 900, -4, 12, 5], [1 << 33, 5, 1, -1, 2, 4]])[:n]
    T = rng.choice([0, 1, 5, 100, 4000, 30000])
    out = [header(T, rng.choice([b'0.6.4', b'0.6', b'0.9.1-x', b'0.0']) if rng.random() < .3 else b'0.6.4')]
    if out[0][1].split(b'\t')[1] == b'0.6': out[0] = header(T, b'0.6.4')
    maps = []; seen = set()
    for i in range(rng.randint(0, 6)):
        p, o, l = rng.choice(LIBS), rng.randint(0, 3) * 4096, rng.choice([1, 4096, 8192])
        if (p, o, l) in seen: continue
        seen.add((p, o, l)); maps.append(rng.choice([i + 1, i * 5 + 100]) + (1 << 32 if rng.random() < .05 else 0))
        out.append(map_(maps[-1], p, o, l))
    for _ in range(rng.choice([0, 0, 1, 2])): out.append(badexe(rng.choice(NAMES), rng.randint(0, 9)))
    tm = {}
    for p, i in zip(names, ids): tm[i] = rng.randint(0, T); out.append(exe(i, p, rng.randint(0, T), tm[i]))
    for i in ids:
        for m in rng.sample(maps, rng.randint(0, len(maps))): out.append(exemap(i, m, rng.choice([b'1', b'1', b'0.5', b'1e-3'])))
    for x in range(n):
        for y in range(x + 1, n):
            if rng.random() < .85:
                w = [[0 if i == j else rng.choice([0, 0, 1, 2, 9]) for j in range(4)] for i in range(4)]
                for k in range(4): w[k][k] = sum(w[k])
                a, b = (ids[x], ids[y]) if rng.random() < .6 else (ids[y], ids[x])
                out.append(markov(a, b, rng.randint(0, min(tm[ids[x]], tm[ids[y]])), [rng.choice(['0', '1', '2.5', '30', '1e+02', '7.33333']) for _ in range(4)], w))
    nid = 0; nodes = [(0, 0)]
    if n:
        k = set()
        for _ in range(rng.choice([0, 0, 3, 8, 15])):
            par, dep = rng.choice(nodes)
            e = rng.choice(ids)
            if dep >= 5 or (par, e) in k: continue
            k.add((par, e)); nid += 1; nodes.append((nid, dep + 1)); out.append(node(nid, e, rng.randint(1, 9), par))
    return out

EDGE = [99, 127, 254, 255, 256, 999, 9999, 32766, 32767, 65535, 99999]     # where a counter might end
def content_for(rng, app, unit):
    """a consistent state file about given applications: {path: [(file, offset, length)]}"""
    T = rng.choice([60, 500, 4000, 20000])
    out = [header(T)]; reg = {}
    for rs in app.values():
        for x in rs:
            if x not in reg: reg[x] = len(reg) + 1; out.append(map_(reg[x], *x, unit=unit, upd=rng.randint(0, T)))
    ids = {}; tm = {}
    for p in app:
        if rng.random() < .12: continue
        ids[p] = len(ids) + 1; tm[p] = rng.choice([0, rng.randint(0, T // 2), rng.randint(0, T), T]); out.append(exe(ids[p], p, rng.randint(0, T), tm[p]))
    for p in ids:
        for x in app[p]: out.append(exemap(ids[p], reg[x]))
    P = list(ids); deep = rng.random() < .5; many = rng.random() < .3
    for x in range(len(P)):
        for y in range(x + 1, len(P)):
            w = [[0 if i == j else rng.choice([0, 0, 1, 2, 9, 60] + EDGE * many) for j in range(4)] for i in range(4)]
            for k in range(4): w[k][k] = sum(w[k])
            a, b = (P[x], P[y]) if rng.random() < .6 else (P[y], P[x])
            lo, hi = max(0, tm[a] + tm[b] - T), min(tm[a], tm[b])
            out.append(markov(ids[a], ids[b], rng.choice([lo, hi, rng.randint(lo, hi)]), [rng.choice(['0', '0.5', '1', '1.5', '2', '30'] + ([] if many else ['7.33333', '400', '1e+04'])) for _ in range(4)], w))
    k = set(); nid = 0; nodes = [(0, 0)]
    big = rng.choice([3, 9, 60, 2000])
    for _ in range(rng.choice([0, 4, 12, 30]) if P else 0):
        par, dep = rng.choice(nodes if deep else nodes[:4])
        p = rng.choice(P)
        if dep >= 5 or (par, p) in k: continue
        k.add((par, p)); nid += 1; nodes.append((nid, dep + 1)); out.append(node(nid, ids[p], rng.choice([0, 1, 1, rng.randint(1, big), big] + EDGE * many), par))
    return out

def mutate(rng, recs):
    recs = list(recs)
    n = len(recs)
    x = rng.choice(['drop', 'dup', 'dupfar', 'swap', 'malform', 'malform', 'cut', 'insert', 'ref', 'shuffle', 'head', 'bigid', 'move'])
    i = rng.randrange(n)
    hdr = recs[0]
    if x == 'drop': recs.pop(i)
    elif x == 'dup': recs.insert(i, recs[i])
    elif x == 'dupfar': recs.insert(rng.randint(i, n), recs[i])
    elif x == 'swap' and n > 2: j = rng.randrange(n); recs[i], recs[j] = recs[j], recs[i]
    elif x == 'malform': recs[i] = malform(rng, recs[i])
    elif x == 'cut': recs = recs[:i] + [malform(rng, recs[i])]
    elif x == 'insert':
        recs.insert(rng.randint(0, n), rng.choice([raw('BLANK', b''), raw('BLANK', b'  \t '), raw('COMMENT', b'# hello'), raw('COMMENT', b'#'), raw('COMMENT', b'#MAP\tx'), badexe(), raw('BADEXE', b'BADEXE'), raw('BADEXE', b'BADEXE\tjunk'),
                                                   raw('OTHER', b'FOO\t1'), raw('OTHER', b'exe\t1\t2'), raw('OTHER', b'MAPS\t1'), raw('OTHER', b'EXEMA\t1\t2\t1'), raw('OTHER', b'x' * 40), raw('OTHER', b'PRELOADx' + b'y' * 40),
                                                   raw('OTHER', b'\xff\xfe'), raw('OTHER', b'!'), raw('OTHER', b'VOMMNODES\t1\t1\t1\t0'), header(7), header(7, b'1.0.0'), node(50, 99, 1, 0), node(51, 1, 1, 77)]))
    elif x == 'ref':
        c = [k for k in range(n) if recs[k][0]['tag'] in ('EXEMAP', 'MARKOV', 'VOMMNODE') and recs[k][0]['ok']]
        if c:
            k = rng.choice(c); r, b = recs[k]; f = b.split(b'\t'); r = dict(r)
            fld = dict(EXEMAP=[('exe', 1), ('map', 2)], MARKOV=[('a', 1), ('b', 2)], VOMMNODE=[('exe', 2), ('parent', 4), ('id', 1)])[r['tag']]
            g, pos = rng.choice(fld); v = rng.choice([0, 1, 2, 3, 5, 99, 1 << 32, (1 << 32) + 1, -1])
            r[g] = str(v); f[pos] = b'%d' % v; recs[k] = (r, b'\t'.join(f))
    elif x == 'shuffle': t = recs[1:]; rng.shuffle(t); recs = [hdr] + t
    elif x == 'head':
        y = rng.choice(['none', 'ver', 'bad', 'comment', 'foreign'])
        if y == 'none': recs = recs[1:]
        elif y == 'ver': recs[0] = header(5, rng.choice(VERSIONS))
        elif y == 'bad': recs[0] = malform(rng, header(5))
        elif y == 'comment': recs.insert(0, raw('COMMENT', b'# preload state'))
        else: recs.insert(0, raw('OTHER', rng.choice([b'preload\t0.6.4\t0', b'XPRELOAD\t0.6.4\t1', b'{"state": 1}', b'PRELOAD2\t0.6.4\t3'])))
    elif x == 'bigid':
        r, b = node((1 << 32) + rng.randint(0, 3), 1, 2, rng.choice([0, 1 << 32, 1])); recs.append((r, b))
    elif x == 'move': t = recs.pop(i); recs.insert(rng.randint(0, len(recs)), t)
    return recs

def to_bytes(rng, recs):
    b = b''.join(l + b'\n' for _, l in recs)
    if recs and recs[-1][1] and rng.random() < .15: b = b[:-1]
    return b

def damage(rng, data):
    """bytes that were a state file, or never were"""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 5])):
        x = rng.randint(0, 8); p = rng.randint(0, len(b)) if b else 0
        if x == 0: b = b[:p]
        elif x == 1 and b: b[p % len(b)] = rng.randint(0, 255)
        elif x == 2: b[p:p] = bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 9)))
        elif x == 3: q = rng.randint(p, min(len(b), p + 40)); del b[p:q]
        elif x == 4: q = rng.randint(p, min(len(b), p + 200)); b[p:p] = b[p:q]
        elif x == 5:
            ds = [i for i in range(len(b)) if 48 <= b[i] <= 57]
            if ds: i = rng.choice(ds); b[i:i + 1] = rng.choice([b'-1', b'0', b'99999999999999999999999', b'2147483648', b'-2147483649', b'9223372036854775807', b'1e308', b'nan', b'inf', b'-inf', b'0x10', b'1.5', b'4294967296'])
        elif x == 6: b += rng.choice([b'\n', b'\0', b'\n\n', b'MAP', b'EXE\t1', b'\r\n', b'\xff' * 9, b'MARKOV\t1\t2\t3', b'x' * 5000])
        elif x == 7: b = bytearray(bytes(b).replace(b'\t', rng.choice([b' ', b'\t\t', b'\r', b',', b'\0']), rng.choice([1, 3, -1])))
        else: b = bytearray(bytes(b).replace(b'\n', rng.choice([b'\r\n', b'\r', b'\0', b'\n\n']), rng.choice([1, 3, -1])))
    return bytes(b)

def run_on(rng, s, damaged):
    """what follows a start from a given state file"""
    apps = [b'/bin/a', b'/bin/b', b'/bin/c', b'/opt/d e', b'/new/e']
    for a in apps:
        if rng.random() < .8: s.file(a)
    for l in LIBS: s.file(l)
    s.conf(*mkconf(cycle=4, minsize=1000, prediction_algorithm=rng.choice(['VOMM', 'MARKOV']), maxprocs=rng.choice([0, 2]), memtotal=0, memfree=100, usecorrelation=rng.random() < .6, autosave=rng.choice([5, 3600])))
    def P(p, a): s.proc(p, a, [Map(a, 0, 8192), Map('/lib/la', 0, 4096), Map('/lib/lb', 4096, 4096)])
    if rng.random() < .5: P(10, rng.choice(apps))
    if rng.random() < .3: s.file(rng.choice(LIBS), 'n')
    s.begin()
    for k in range(rng.choice([0, 2, 5])):
        x = rng.random()
        if x < .4: P(20 + k, rng.choice(apps))
        elif x < .6 and s.procs: s.kill(rng.choice(sorted(s.procs)))
        s.adv(rng.choice([1, 2, 3]))
        if rng.random() < .25: s.sig(rng.choice(['USR2', 'USR1', 'HUP']))
    if rng.random() < .6:
        s.sig('TERM'); s.restart(None); s.adv(2)
    return s

def scenario(rng, sid, recs):
    s = Scn(sid, laws=False)
    data = to_bytes(rng, recs)
    s.segs[0]['state'] = ('recs', [r for r, _ in recs], data)
    return run_on(rng, s, False)

def light(rng, sid, data):
    s = Scn(sid, laws=False, light=True)
    s.segs[0]['state'] = ('bytes', data)
    return run_on(rng, s, True)
