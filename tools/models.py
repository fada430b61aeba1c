"""The specification's own models, checked by TLC, and the behaviours TLC enumerates from them, which
are replayed in the real daemon (and there judged by Trace.tla like any other history)."""
import json, os, re, tempfile, shutil, random
from vlib import *
from run_tlc import tlc

# ---------------------------------------------------------------- running TLC on a model
CACHE = {}
def prune(paths):
    """drop behaviours that are the beginning of another one"""
    ps = sorted(set(map(tuple, paths)))
    return [p for i, p in enumerate(ps) if not (i + 1 < len(ps) and ps[i + 1][:len(p)] == p)]

def run_model(name, module, consts, invs=(), props=(), view=None, acon=None, con=None, spec='Spec', simulate=None, timeout=600, subst=()):
    """returns (result record, behaviours printed)"""
    d = tempfile.mkdtemp(prefix='mc-')
    try:
        cfg = d + '/m.cfg'
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec)
            if view: f.write('VIEW %s\n' % view)
            if invs: f.write('INVARIANTS %s\n' % ' '.join(invs))
            if props: f.write('PROPERTIES %s\n' % ' '.join(props))
            if acon: f.write('ACTION_CONSTRAINT %s\n' % acon)
            if con: f.write('CONSTRAINT %s\n' % con)
            if consts or subst: f.write('CONSTANTS\n' + ''.join(' %s = %s\n' % kv for kv in consts.items()) + ''.join(' %s <- %s\n' % kv for kv in subst))
        extra = [] if not simulate else ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(simulate[2])]
        rc, out = tlc(module, cfg=cfg, extra=extra, timeout=timeout, workers=1 if simulate else 8)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    paths = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<\s*"PATH",\s*"((?:[^"\\]|\\.)*)"\s*>>', out)]
    g = re.findall(r'([\d,]+) states generated(?:, ([\d,]+) distinct)?', out) or re.findall(r'number of states generated: ([\d,]+)()', out)
    n = lambda x: int(x.replace(',', '')) if x else 0
    dm = re.search(r'depth of the complete state graph search is (\d+)', out)
    ok = rc == 0 and 'Error' not in re.sub(r'<<\s*"PATH".*', '', out)
    r = dict(model=name, module=module, constants={k: str(v) for k, v in consts.items()}, checked=list(invs) + list(props), ok=ok, out=out,
             transitions=n(g[-1][0]) if g else 0, states=n(g[-1][1] or g[-1][0]) if g else 0, depth=int(dm.group(1)) if dm else 0, simulated=bool(simulate))
    return r, paths

# ---------------------------------------------------------------- MC_Daemon
DINV = 'Known1 Depart Times Tree Refs States Observed OnDisk Clean1 Running1 Filter1 SmallInv RoundTrip NoErr Clock Tempo Scored Foreseen'.split()
DPROP = 'PTick PSig PSave PDisk PBoot'.split()
def tset(xs): return '{%s}' % ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in xs)
ABC = ['/bin/a', '/bin/b', '/bin/c']
#          apps small moves                                                      confs  quick thorough depth
DMODELS = {
 'learn':  (3, [],  ['tick'],                                                     [2],     8, 9),
 'tree':   (3, [],  ['tick'],                                                     [1],     8, 10),
 'small':  (3, [2], ['tick', 'USR2', 'fail'],                                     [1],     6, 8),
 'save':   (2, [],  ['tick', 'USR2', 'TERM', 'restart', 'fail', 'crash'],         [1],     7, 9),
 'resume': (2, [],  ['tick', 'TERM', 'restart'],                                  [2],     9, 11),
 'resumev':(3, [],  ['tick', 'TERM', 'restart'],                                  [1],     7, 8),
 'auto':   (2, [],  ['tick', 'fail', 'crash', 'restart', 'lose'],                 [4],     7, 9),
 'gone':   (2, [],  ['tick', 'USR2', 'lose', 'fail'],                             [1],     8, 9),
 'gone3':  (3, [],  ['tick', 'USR2', 'lose'],                                     [1],     7, 8),
 'signals':(2, [],  ['tick', 'HUP', 'USR1', 'USR2', 'TERM', 'restart'],           [1],     6, 7),
 'conf':   (2, [2], ['tick', 'HUP', 'USR1'],                                      [1, 2, 3, 5, 6, 7], 5, 6),
 'switch': (2, [],  ['tick', 'HUP'],                                              [1, 2],  8, 9),
 'late':   (2, [],  ['tick', 'late', 'USR2'],                                      [4],     7, 9),
 'power':  (2, [],  ['tick', 'battery', 'USR2'],                                  [1],     8, 10),
 'powerx': (2, [],  ['tick', 'battery', 'HUP'],                                   [3, 8, 9], 6, 8),
}
def confs(n):
    b = lambda alg='VOMM', cyc=4, **k: mkconf(cycle=cyc, minsize=3, prediction_algorithm=alg, **k)
    if n == 1: return b()
    if n == 2: return b('MARKOV')
    if n == 3: return b(doscan=False)
    if n == 4: return b('MARKOV', 3, autosave=5)
    if n == 5: return dict(st='malformed'), '[model\ncycle=9\n'
    if n == 6:
        d, t = b(cyc=2); d['kv'].append(dict(g='system', k='autosave', ok=False, v=0)); return d, t + '[system]\nautosave=soon\n'
    if n == 7: return b(exeprefix=['!/bin/b', '/bin'])
    if n == 8: return b(cyc=5, dopredict=False)
    if n == 9: return b(autosave=5)

def daemon_model(name, quick, show, simulate=None):
    na, small, moves, cf, dq, dt = DMODELS[name]
    depth = dq if quick else dt
    if simulate: depth = simulate[1]
    return run_model(name, 'MC_Daemon', dict(Apps=tset(ABC[:na]), Small=tset([ABC[i - 1] for i in small]), Moves=tset(moves), Confs=tset(cf), Depth=depth, Show='TRUE' if show else 'FALSE'),
                     invs=DINV, props=() if simulate else DPROP, view=None if simulate else 'View', acon='Printed', subst=[('AppSeq', 'OrderABC')], simulate=simulate)

def daemon_scn(sid, path, small):
    s = Scn(sid, unit=1)
    s.mem(total=10000000, free=1000000, avail=5000000)
    for a in ABC: s.file(a)
    s.file('/lib/x')
    def maps(p):
        if p in small: return [Map(p, 0, 1)]
        return [Map(p, 0, 3), Map('/lib/x', 1, 2), Map('[heap]', 0, 9)]
    def world(run):
        for i, p in enumerate(ABC):
            pid = 10 + i
            if p in run and pid not in s.procs: s.proc(pid, p, maps(p))
            if p not in run and pid in s.procs: s.kill(pid)
    first = True
    for t in path:
        w = t.split()
        if w[0] == 'conf':
            s.conf(*confs(int(w[1])))
            if first: s.begin(); first = False
        elif w[0] == 'tick': world(w[1:]); s.adv(1)
        elif w[0] == 'late': world(w[2:]); s.late(int(w[1])); s.adv(1)
        elif w[0] == 'restart': s.restart(None); world(w[1:]); s.begin()
        elif w[0] == 'sig': s.sig(w[1])
        elif w[0] == 'fail':
            # a failed call is one that keeps failing; a crash ends this life
            kind = ['open', 'write', 'sync', 'close', 'rename'][int(w[1]) - 1]
            if w[2] == 'e': s.fault(kind, 1, 'e', 28, 9); s.sig('USR2'); s.nofault()
            else: s.fault('any', int(w[1]), 'c', 0); s.sig('USR2')
        elif w[0] == 'lose': s.file(w[1], 'n')
        elif w[0] == 'find': s.file(w[1], 'r')
        elif w[0] in ('battery', 'mains'): s.bat(0, 'Discharging\n' if w[0] == 'battery' else 'Charging\n')
    return s

# ---------------------------------------------------------------- MC_File
import recs as R_
import cmdline
WK = [[2, 1, 1, 0], [0] * 4, [0] * 4, [0] * 4]
import itertools
VN = itertools.count()
def rec_of(x):
    M, E, X = R_.map_, R_.exe, R_.exemap
    K = lambda a, b: R_.markov(a, b, 7, ('3', '0', '0', '0'), WK)
    return {'H': lambda: R_.header(100), 'HX': lambda: R_.header(100, R_.VERSIONS[next(VN) % len(R_.VERSIONS)]), 'HB': lambda: R_.broken('PRELOAD', b'PRELOAD\t0.6.4'),
            'M1': lambda: M(1, '/lib/r1', 0, 4096), 'M2': lambda: M(2, '/lib/r2', 4096, 8192), "M1'": lambda: M(1, '/lib/r2', 4096, 8192), "M2'": lambda: M(2, '/lib/r1', 0, 4096),
            'E1': lambda: E(1, '/bin/a', 3, 40), 'E2': lambda: E(2, '/bin/b', 3, 40), "E2'": lambda: E(2, '/bin/a', 3, 40), "E1'": lambda: E(1, '/bin/b', 3, 40), 'EB': lambda: R_.broken('EXE', b'EXE\t3\t1'),
            'X11': lambda: X(1, 1), 'X21': lambda: X(2, 1), 'X12': lambda: X(1, 2), 'K12': lambda: K(1, 2), 'K21': lambda: K(2, 1), 'K11': lambda: K(1, 1), 'KW': lambda: R_.markov(1, 2, 7, ('2.5', '3', '0', '0'), [[1, 5, 4, 9], [0, 1, 0, 7], [0] * 4, [0] * 4]), 'KB': lambda: R_.broken('MARKOV', b'MARKOV\t1\t2\t7\t3'),
            'N1': lambda: R_.node(1, 1, 3, 0), 'N2': lambda: R_.node(2, 2, 2, 1), "N1'": lambda: R_.node(1, 2, 1, 0), 'N3': lambda: R_.node(3, 1, 4, 2), 'NE': lambda: R_.node(4, 9, 1, 0),
            'NP': lambda: R_.node(5, 1, 1, 7), 'N0': lambda: R_.node(0, 1, 2, 0), 'NS': lambda: R_.node(6, 1, 2, 6), 'N4': lambda: R_.node(7, 1, 9, 0), 'NB': lambda: R_.broken('VOMMNODE', b'VOMMNODE\t1\t1\t3'),
            'C': lambda: R_.raw('COMMENT', b'# remark'), 'B': lambda: R_.badexe(), 'O': lambda: R_.raw('OTHER', b'EXES\t1\t2'), 'Z': lambda: R_.raw('BLANK', b'')}[x]()
HEADS = ['H', 'HX', 'HB', 'C', 'E1', 'Z', 'O']
SYMS = "M1 M2 M1' M2' E1 E2 E2' E1' EB X11 X21 X12 K12 K21 K11 KW KB N1 N2 N1' N3 N4 NE NP N0 NS NB C B O Z H".split()
def file_scn(sid, names, rng):
    s = Scn(sid, laws=False)
    rs = [rec_of(x) for x in names]
    s.segs[0]['state'] = ('recs', [r for r, _ in rs], b''.join(b + b'\n' for _, b in rs))
    for p in ('/bin/a', '/bin/b', '/bin/c', '/lib/r1', '/lib/r2'): s.file(p)
    s.conf(*mkconf(cycle=4, minsize=1, prediction_algorithm=rng.choice(['VOMM', 'MARKOV']), maxprocs=0, memtotal=0, memfree=100))
    P = lambda pid, p: s.proc(pid, p, [Map(p, 0, 8192), Map('/lib/r1', 0, 4096)])
    if rng.random() < .5: P(10, '/bin/a')
    s.begin(); s.adv(1)
    P(11, rng.choice(['/bin/b', '/bin/c'])); s.adv(2)
    if 10 in s.procs: s.kill(10)
    s.adv(2); s.file('/bin/a', 'n'); s.sig('USR2'); s.adv(1); s.sig('TERM')
    s.restart(None); s.adv(1)
    return s
def m_file(quick, rng, n):
    syms, ml = (SYMS, 3) if quick else (SYMS, 3)
    if not quick: ml = 4; syms = [x for x in SYMS if x not in ("M1'", "E1'", 'KB', 'NB', 'EB', 'O', 'B', 'N0', 'K11')]
    return (('MC_File', dict(MaxLen=ml, Heads=tset(HEADS), Symbols=tset(syms), Show='TRUE'), 'Outcomes Stays Justified Skipped Order2 Told Lives Printed'.split()),
            lambda ps: [file_scn('file-%d' % i, p, rng) for i, p in enumerate(ps)])

# ---------------------------------------------------------------- MC_Filter, MC_Maps, MC_Procs
FENT = ['/a', '!/a', '/a/b', '!/a/b', '/', '!/', '!', '/ab', '!/b', '', '!/A']
FPTH = ['/a', '/ab', '/a/b', '/a/bc', '/b', '/c', '/A']
def filter_scn(sid, l, m, rng):
    s = Scn(sid)
    kw = dict(cycle=2, minsize=1, prediction_algorithm=rng.choice(['VOMM', 'MARKOV']), maxprocs=0)
    if l: kw['exeprefix'] = l
    if m: kw['mapprefix'] = m
    s.conf(*mkconf(**kw))
    for p in FPTH: s.file(p)
    for k, p in enumerate(FPTH): s.proc(10 + k, p, [Map(q, 4096 * j, 4096) for j, q in enumerate(FPTH)])
    s.adv(3)
    return s
def m_filter(quick, rng, n):
    def mk(ps):
        ms = list(ps); rng.shuffle(ms)
        return [filter_scn('pfx-%d' % i, l, ms[i], rng) for i, l in enumerate(ps)]
    return (('MC_Filter', dict(Entries=tset(FENT), Pths=tset(FPTH), MaxLen=3 if quick else 4, Show='TRUE'), 'Decides Later Without Opposed Printed'.split()), mk)

MLINE = dict(a0=('/l/a', 0, 2), a2=('/l/a', 2, 2), a0x=('/l/a', 0, 3), b0=('/m/b', 0, 2), ap=('/l/a.#prelink#.Xy', 0, 2), ad=('/l/a (deleted)', 0, 5), apd=('/l/a.#prelink#.q (deleted)', 2, 2),
             anon=('', 0, 7), heap=('[heap]', 0, 9), memfd=('anon_inode:[x]', 0, 9))
MFILT = [[], ['!/l'], ['/m', '!/'], ['/l/a', '!/l', '!/m']]
def maps_scn(sid, lists, rng):
    s = Scn(sid)
    kw = dict(cycle=4, minsize=rng.choice([0, 1, 3, 5]), prediction_algorithm='MARKOV', maxprocs=0)
    f = rng.choice(MFILT)
    if f: kw['mapprefix'] = f
    s.conf(*mkconf(**kw))
    s.file('/l/a'); s.file('/m/b')
    for i, l in enumerate(lists): s.file('/p/%d' % i); s.proc(10 + i, '/p/%d' % i, [Map(*MLINE[x], perm=rng.choice(['r-xp', 'r--p', 'rw-p'])) for x in l],
                                                                    then=[Map(*MLINE[x]) for x in rng.choice(lists)] if i % 3 == 2 else None)
    s.adv(2)
    for i in range(0, len(lists), 3): s.kill(10 + i); s.file('/p/%d' % i, 'n')
    s.adv(2); s.sig('USR2'); s.adv(1)
    for i in range(0, len(lists), 3): s.file('/p/%d' % i); s.proc(10 + i, '/p/%d' % i, [Map(*MLINE[x]) for x in lists[(i + 1) % len(lists)]])
    s.adv(3)
    return s
def m_maps(quick, rng, n):
    K = 9
    return (('MC_Maps', dict(Lines=tset(MLINE), MaxLen=3 if quick else 4, Show='TRUE'), 'Exactly Additive Sized Twice Dying Printed'.split()),
            lambda ps: [maps_scn('maps-%d' % i, ps[i:i + K], rng) for i in range(0, len(ps), K)])

PKINDS = 'a b x apre adel kthr self rel dy d'.split()
def procs_scn(sid, inst, rng):
    kinds, left = inst
    s = Scn(sid, unit=1)
    s.conf(*mkconf(cycle=4, minsize=3, prediction_algorithm=rng.choice(['VOMM', 'MARKOV']), maxprocs=0, exeprefix=['!/opt']))
    for f in ('/bin/a', '/bin/b', '/bin/d', '/lib/l', '/opt/x', '/bin/c'): s.file(f)
    big = lambda p: [Map('/bin/' + p, 0, 3), Map('/lib/l', 1, 2)]
    for i, k in enumerate(kinds):
        pid = 10 + i
        if k == 'a': s.proc(pid, '/bin/a', big('a'))
        elif k == 'b': s.proc(pid, '/bin/b', [Map('/bin/b', 0, 2)])
        elif k == 'x': s.proc(pid, '/opt/x', big('a'))
        elif k == 'apre': s.proc(pid, '/bin/a.#prelink#.Qz', big('a'))
        elif k == 'adel': s.proc(pid, '/bin/a (deleted)', big('a'))
        elif k == 'kthr': s.proc(pid, rng.choice('-+'), big('a'))
        elif k == 'self': s.proc(4242, '/bin/c', big('a'))
        elif k == 'rel': s.proc(pid, 'bin/a', big('a'))
        elif k in ('d', 'dy'): s.proc(pid, '/bin/d', big('d'))
        if k == 'dy': s.dying(pid)
    s.begin()
    for i in left: s.kill(4242 if kinds[i - 1] == 'self' else 9 + i)
    s.adv(2)
    if rng.random() < .3: s.sig('USR2')
    s.adv(2)
    return s
def m_procs(quick, rng, n):
    return (('MC_Procs', dict(Kinds=tset(PKINDS), MaxProcs=3, Show='TRUE'), 'Tracked Noticed Printed'.split()),
            lambda ps: [procs_scn('procs-%d' % i, p, rng) for i, p in enumerate(ps)])

# ---------------------------------------------------------------- MC_Conf
CLINE = dict(c9=('model', 'cycle', '9', 9), c7=('model', 'cycle', '7', 7), cx=('model', 'cycle', '7x', None), sc=('system', 'cycle', '5', 5), mp=('system', 'maxprocs', '4', 4), pr=('system', 'processes', '6', 6),
             prx=('system', 'processes', 'six', None), ds=('system', 'doscan', 'false', 0), dsx=('system', 'doscan', 'perhaps', None), mk=('system', 'prediction_algorithm', 'MARKOV', 'MARKOV'),
             un=('system', 'nonsense', 'x', 'x'), ep=('system', 'exeprefix', '!/x;/;', ['!/x', '/']), mt=('model', 'memtotal', '-400', -400))
def conf_of(l):
    kv = [dict(g=CLINE[x][0], k=CLINE[x][1], ok=CLINE[x][3] is not None, v=0 if CLINE[x][3] is None else CLINE[x][3]) for x in l]
    return dict(st='ok', kv=kv), ''.join('[%s]\n%s=%s\n' % CLINE[x][:3] for x in l)
def conf_scn(sid, lists, rng):
    s = Scn(sid)
    s.conf(*conf_of(lists[0])); s.file('/bin/a'); s.proc(10, '/bin/a', [Map('/bin/a', 0, 4096 * 700)])
    s.adv(1)
    for l in lists[1:]:
        s.conf(*conf_of(l)); s.sig('HUP')
        if rng.random() < .3: s.adv(1)
    s.sig('TERM')
    return s
def m_conf(quick, rng, n):
    K = 10
    return (('MC_Conf', dict(Lines=tset(CLINE), MaxLen=3 if quick else 4, Show='TRUE'), 'Frame Says Refused Pure Told Printed'.split()),
            lambda ps: [conf_scn('cf-%d' % i, ps[i:i + K], rng) for i in range(0, len(ps), K)])

# ---------------------------------------------------------------- MC_Select, MC_Merge, MC_Readers
def ra_state(regs, uses, counts, algo='VOMM'):
    """a state file: application /bin/r runs; /bin/pN, needing the regions uses[N], followed it counts[N] times"""
    rs = [R_.header(1000)]
    for i, (p, o, l) in enumerate(regs): rs.append(R_.map_(i + 1, p, o, l))
    rs.append(R_.exe(99, '/bin/r', 5, 500))
    for i in range(len(uses)):
        rs.append(R_.exe(i + 1, '/bin/p%d' % i, 5, 100))
        for k in uses[i]: rs.append(R_.exemap(i + 1, k + 1))
    n = 1; rs.append(R_.node(1, 99, 9, 0))
    for i, c in enumerate(counts):
        if c: n += 1; rs.append(R_.node(n, i + 1, c, 1))
    return ('recs', [r for r, _ in rs], b''.join(b + b'\n' for _, b in rs))
def ra_scn(sid, regs, uses, counts, conf, mem, files=None):
    s = Scn(sid, laws=False)
    s.segs[0]['state'] = ra_state(regs, uses, counts)
    for p in ['/bin/r'] + ['/bin/p%d' % i for i in range(len(uses))]: s.file(p)
    for p in sorted({p for p, _, _ in regs}): s.file(p, **(files or {}).get(p, {}))
    s.mem(**mem)
    s.conf(*mkconf(**dict(dict(cycle=4, minsize=1, prediction_algorithm='VOMM', maxprocs=0, memtotal=0, memfree=100, memcached=0, membuffers=0, sortstrategy=0), **conf)))
    s.proc(10, '/bin/r', [Map('/bin/r', 0, 4096)])
    return s
def select_scn(sid, inst, rng):
    kb, need, budget = inst
    n = len(kb)
    # the same budget by different roads
    road = rng.choice(['avail', 'free', 'total', 'neg'])
    conf, mem = {}, dict(total=0, free=0, avail=max(0, budget) * 100, cached=0, buffers=0)
    if road == 'total' or budget < 0: conf = dict(memtotal=100 if budget >= 0 else -100, memfree=0); mem = dict(mem, total=abs(budget) * 100, avail=77)
    elif road == 'free': mem = dict(mem, avail=-1, free=budget * 100)
    elif road == 'neg': conf = dict(memtotal=-100, memcached=100, memfree=0); mem = dict(mem, total=400, cached=budget * 100)
    regs = [('/lib/r%d' % i, 0, k * 102400) for i, k in enumerate(kb)]
    s = ra_scn(sid, regs, [[i] for i in range(n)], need, conf, mem)
    s.adv(2); s.sig('HUP'); s.adv(1)
    return s
def m_select(quick, rng, n):
    return (('MC_Select', dict(MaxRegions=3 if quick else 4, MaxKb=3 if quick else 2, MaxNeed=2, MaxBudget=5, Show='TRUE'), 'Exact Words Printed'.split()),
            lambda ps: [select_scn('sel-%d' % i, p, rng) for i, p in enumerate(ps)])
def merge_scn(sid, inst, rng):
    regs, sort, lay = inst
    f = lambda r: ('/lib/f' if r['f'] == 1 else '/lib/g', r['off'] * 4096, r['len'] * 4096)
    fl = {'/lib/f': dict(ino=9, blk={0: 10, 1: 30}.get(lay, -1)), '/lib/g': dict(ino=5, blk={0: 30, 1: 10}.get(lay, -1), kind='n' if lay == 3 else 'r')}
    s = ra_scn(sid, [f(r) for r in regs], [list(range(len(regs)))], [3], dict(sortstrategy=sort, maxprocs=rng.choice([0, 0, 2])), dict(total=0, free=0, avail=100000, cached=0, buffers=0), fl)
    s.adv(2)
    if rng.random() < .3: s.conf(*mkconf(cycle=4, minsize=1, prediction_algorithm='VOMM', maxprocs=0, memtotal=0, memfree=100, sortstrategy=rng.randint(0, 3))); s.sig('HUP')
    s.adv(2)
    return s
def m_merge(quick, rng, n):
    return (('MC_Merge', dict(MaxRegions=3, MaxOff=2 if quick else 4, MaxLen=2 if quick else 3, Show='TRUE'), 'Bytes ByPath ByDisk Unsorted Printed'.split()),
            lambda ps: [merge_scn('merge-%d' % i, p, rng) for i, p in enumerate(ps)])
def readers_scn(sid, inst, rng):
    n, mp, fails, pipes = inst
    regs = [('/lib/r%d' % i, 0, 4096) for i in range(n)]
    s = ra_scn(sid, regs, [[i] for i in range(n)], [1 + i for i in range(n)], dict(maxprocs=mp, sortstrategy=rng.randint(0, 3)), dict(total=0, free=0, avail=100000, cached=0, buffers=0))
    for i, x in enumerate(fails):
        if x: s.forkfail(i + 1)
    for i, x in enumerate(pipes):
        if x: s.file('/lib/r%d' % i, 's')
    if rng.random() < .4: s.sigchld()
    s.begin(); s.adv(3)
    return s
def m_readers(quick, rng, n):
    out = []
    for N, mp in ((3, 2), (3, 0), (4, 1), (5, 3)) if quick else ((3, 2), (3, 0), (4, 1), (5, 3), (6, 2), (6, 4), (7, 3)):
        for ig in ('FALSE', 'TRUE'):
            out.append((('MC_Readers', dict(N=N, MaxProcs=mp, Ignored=ig, Patient='FALSE', Show='TRUE' if ig == 'FALSE' else 'FALSE'), 'Bounded Counted Done Once Quiet Printed'.split(), ['Ends']),
                        lambda ps, N=N, mp=mp: [readers_scn('readers-%d.%d-%d' % (N, mp, i), p, rng) for i, p in enumerate(ps)]))
    return out
def m_save(quick, rng, n):
    return (('MC_Save', dict(Blocks=2, MaxOps=6 if quick else 8, Careless='FALSE'), ['Safe', 'Untouched']), lambda ps: [])
def plant_scn(sid, path, rng):
    s = Scn(sid, unit=1)
    s.conf(*mkconf(cycle=4, minsize=3, prediction_algorithm=rng.choice(['VOMM', 'MARKOV']), maxprocs=0, autosave=rng.choice([3600, 3600, 5])))
    for i, a in enumerate(ABC): s.file(a)
    P = lambda i: s.proc(10 + i, ABC[i], [Map(ABC[i], 0, 4096)])
    P(0); s.adv(2)
    mid = [t for t in path if t[0] in ('looked', 'removed')]
    saves = 0
    for j, (what, kind) in enumerate(path):
        if what == 'before': s.staletmp(kind)
        elif what == 'save':
            saves += 1
            nx = path[j + 1] if j + 1 < len(path) else ['', '']
            if nx[0] in ('looked', 'removed'): s.staletmp(nx[1], 1 if nx[0] == 'looked' else 2)
            how = rng.choice(['USR2', 'USR2', 'TERM'])
            s.sig(how)
            if how == 'TERM': s.restart(None); s.begin()
            P(saves % 3); s.adv(rng.choice([1, 2]))
    s.sig('TERM'); s.restart(None); s.adv(1)
    return s
def m_plant(quick, rng, n):
    return (('MC_Plant', dict(Kinds=tset('rlhd'), Saves=2 if quick else 3, Exclusive='TRUE', Show='TRUE'), 'Intact OwnOnly Kept Told Regains Clean Printed'.split()),
            lambda ps: [plant_scn('plant-%d' % i, p, rng) for i, p in enumerate(ps)])
# ---------------------------------------------------------------- MC_Load
def load_scn(sid, p, rng):
    # the file: as many bytes for each unit of length as make the lines fit
    while True:
        recs = R_.content(rng)
        if p['bad']:
            recs = recs[:1] + [r for r in recs[1:] if r[0]['tag'] != 'BLANK']
            recs.insert(rng.randint(1, len(recs)), R_.broken('EXE', b'EXE\tx'))
        if len(recs) > 1: break
    data = R_.to_bytes(rng, recs)
    unit = -(-len(data) // sum(p['lines']))
    s = Scn(sid, laws=False)
    first = True
    for what, k in p['path'] + [['start', 'ok']]:
        if what == 'start':
            if not first:
                s.begin()
                for _ in range(rng.choice([1, 2])): s.adv(2)
                s.nofault(); s.sig(rng.choice(['USR2', 'TERM'])); s.sig('TERM'); s.restart(None)
            else:
                s.segs[0]['state'] = ('recs', [r for r, _ in recs], data)
                for a in R_.LIBS + [b'/bin/a', b'/bin/b', b'/bin/c', b'/opt/d e']: s.file(a)
                s.conf(*mkconf(cycle=4, minsize=1000, prediction_algorithm=rng.choice(['VOMM', 'MARKOV']), maxprocs=0))
            first = False; nth = 0
            if k == 'denied': s.fault('ropen', 1, 'e', 13, 1)
            elif k == 'other': s.fault('ropen', 1, 'e', rng.choice([5, 24, 23, 40]), 1)
        else:
            nth += 1
            if what == 'read': s.fault('read', nth, 's', max(1, min(k * unit, 1024)), 1)
            elif what == 'intr': s.fault('read', nth, 'e', 4, 1)
            else: s.fault('read', nth, 'e', rng.choice([5, 21, 116]), 99)
    s.begin(); s.adv(3); s.sig('TERM')
    return s
def m_load(quick, rng, n):
    return [(('MC_Load', dict(Chunks='{1, 2, 5}', BadLine=bad, Starts=st, Intrs=1, Partial='FALSE', Show='TRUE'), 'Whole Untouched NotLost Reason Printed'.split(), (), [('Lines', f)]),
             lambda ps: [load_scn('load-%d' % i, p, rng) for i, p in enumerate(ps)])
            for f, bad, st in ([('Some', 0, 2), ('More', 3, 1)] if quick else [('Some', 0, 2), ('More', 3, 2), ('More', 0, 1)])]
# ---------------------------------------------------------------- MC_Bids, MC_Tree, MC_Budget
def bids_scn(sid, insts, cyc, uc, rng):
    """several pairs at a time, each with its chain"""
    rs = [R_.header(1000)]; run = []
    for i, (o, row, st, _, _, (ta, tb, t)) in enumerate(insts):
        rs.append(R_.map_(i + 1, '/lib/r%d' % i, 0, 4096))
        for k, (c, tt) in enumerate((('a', ta), ('b', tb))):
            rs += [R_.exe(2 * i + k + 1, '/bin/%s%d' % (c, i), 5, tt), R_.exemap(2 * i + k + 1, i + 1)]
            if (o >> k) & 1: run.append('/bin/%s%d' % (c, i))
        v = [0 if o == 0 else row[3], 0 if o == 1 else row[0], 0 if o == 2 else row[1], 0 if o == 3 else row[2]]
        v[o] = sum(v)
        w = [v if j == o else [0] * 4 for j in range(4)]
        ttl = ['%g' % (st / 100) if j == o and v[o] else '0' for j in range(4)]
        if rng.random() < .5:
            rs.append(R_.markov(2 * i + 1, 2 * i + 2, t, ttl, w))
        else:       # kept the other way round
            z = (0, 2, 1, 3)
            rs.append(R_.markov(2 * i + 2, 2 * i + 1, t, [ttl[j] for j in z], [[w[j][k] for k in z] for j in z]))
    s = Scn(sid, laws=False)
    s.segs[0]['state'] = ('recs', [r for r, _ in rs], b''.join(b + b'\n' for _, b in rs))
    for i in range(len(insts)):
        for c in 'ab': s.file('/bin/%s%d' % (c, i))
        s.file('/lib/r%d' % i)
    s.conf(*mkconf(cycle=cyc, usecorrelation=bool(uc), minsize=1, prediction_algorithm='MARKOV', maxprocs=0, memtotal=0, memfree=100))
    for k, p in enumerate(run): s.proc(10 + k, p, [Map(p, 0, 4096)])
    s.adv(3)
    return s
def m_bids(quick, rng, n):
    def mk(ps):
        g = {}
        for p in ps: g.setdefault((p[3], p[4]), []).append(p)
        out = []
        for (c, u), l in sorted(g.items()):
            for i in range(0, len(l), 6): out.append(bids_scn('bids-%d.%d-%d' % (c, u, i), l[i:i + 6], c, u, rng))
        return out
    q = [50, 101, 150, 725, 3000, 100000] if quick else [0, 50, 100, 101, 102, 150, 200, 725, 3000, 12345, 100000, 500000]
    return (('MC_Bids', dict(Stays=tset(q), Cycles=tset([1, 4, 20] if quick else [1, 2, 4, 20, 60, 300]), Rows=tset(range(1, 9)), Times=tset([1, 3, 5, 6, 8] if quick else range(1, 10)), Show='TRUE'), 'Bounded Silent Grow Longer Joined Share Sided Other CorLaw Printed'.split()), mk)
def tree_scn(sid, inst, rng):
    nodes, launches = inst
    ids = {'/bin/a': 1, '/bin/b': 2, '/bin/c': 3}
    rs = [R_.header(100)] + [R_.exe(i, p, 5, 10) for p, i in ids.items()]
    num = {}
    for k, c in sorted(nodes, key=lambda x: (len(x[0]), x[0])):
        if not c: continue
        num[tuple(k)] = len(num) + 1
        rs.append(R_.node(num[tuple(k)], ids[k[-1]], c, num[tuple(k[:-1])] if len(k) > 1 else 0))
    s = Scn(sid, laws=False)
    s.segs[0]['state'] = ('recs', [r for r, _ in rs], b''.join(b + b'\n' for _, b in rs))
    for p in ids: s.file(p)
    s.conf(*mkconf(cycle=2, minsize=1, prediction_algorithm='VOMM', maxprocs=0, memtotal=0, memfree=100))
    for k, p in enumerate(launches):
        if rng.random() < .3 and s.procs: s.kill(sorted(s.procs)[0])
        s.proc(10 + k, p, [Map(p, 0, 4096)]); s.adv(2 if k else 1)
    s.adv(2)
    if rng.random() < .2: s.sig('TERM'); s.restart(None); s.adv(2)
    return s
def m_tree(quick, rng, n):
    return (('MC_Tree', dict(Numbers=tset([0, 1, 4] if quick else [0, 1, 2, 7]), MaxLaunch=2 if quick else 3, Show='TRUE'), 'Bounded Idle First Shape Grows Keeps Damped Rarer Unseen Deep Sure Scaled Printed'.split()),
            lambda ps: [tree_scn('sq-%d' % i, p, rng) for i, p in enumerate(ps)])
def budget_scn(sid, p, rng):
    total, free, avail, cached, buffers, pt, pf, pc, pb, b = p
    # what fits exactly, and what does not
    kb = [b - 2, 1, 1, 1] if b > 2 and rng.random() < .7 else [b + 1, 1, 1] if b > 0 and rng.random() < .5 else [1, 1, 1]
    regs = [('/lib/r%d' % i, 0, k * 1024) for i, k in enumerate(kb)]
    s = ra_scn(sid, regs, [[i] for i in range(len(kb))], [9 - i for i in range(len(kb))], dict(memtotal=pt, memfree=pf, memcached=pc, membuffers=pb),
               dict(total=total, free=free, avail=avail, cached=cached, buffers=buffers))
    s.adv(2)
    return s
def m_budget(quick, rng, n):
    return (('MC_Budget', dict(Big='FALSE' if quick else 'TRUE', Show='TRUE'), 'AsTold More Clamped Reported Estimate NoPart Printed'.split()),
            lambda ps: [budget_scn('bud-%d' % i, p, rng) for i, p in enumerate(ps)])

# ---------------------------------------------------------------- MC_Cmdline
WORDS = ['-f', '-c', '@/c1', '--conffile=@/c2', '-s@/st/s1', '--state', '', '-l@/l1', '--logfile=', '-d', '-fV9', '-V', '2', '--verb=0', '-n5', '--nice=-3', '--help', '-v', '--ver', '-q', 'x', '--', '-fd', '--debug=1', '-', '-l@/no/l', '-s@/st/sx', '-fc@/cx']
def m_cmd(quick, rng, n):
    return (('MC_Cmdline', dict(Words=tset(WORDS), MaxLen=3, Show='TRUE'), 'Last Untouched Final Extra Forms Levels Printed'.split()),
            lambda ps: [cmdline.Cmd('cmd-%d' % i, p, rng) for i, p in enumerate(ps)])

ENUM = dict(cmd=m_cmd, bids=m_bids, seqs=m_tree, budget=m_budget, file=m_file, filter=m_filter, maps=m_maps, procs=m_procs, conff=m_conf, select=m_select, merge=m_merge, readers=m_readers, proto=m_save, plant=m_plant, load=m_load)

# ---------------------------------------------------------------- which property uses which model
USES = {
 'P01': ['proto', 'save', 'auto'], 'P02': ['resume', 'resumev', 'save'], 'P03': ['file'], 'P04': ['procs', 'small', 'learn'], 'P05': ['filter'], 'P06': ['learn', 'resume', 'power'], 'P07': ['learn', 'resume'],
 'P08': ['tree', 'resumev', 'switch'], 'P09': ['learn', 'bids'], 'P10': ['tree', 'seqs'], 'P11': ['select', 'budget'], 'P12': ['merge', 'readers'], 'P13': ['gone', 'gone3', 'auto'], 'P14': ['gone3', 'switch'],
 'P20': ['readers'], 'P21': ['tree', 'resumev'], 'P22': ['signals', 'conf', 'conff', 'gone'], 'P23': ['plant', 'proto'], 'P24': ['load', 'resume', 'save'], 'P15': ['conff', 'conf', 'switch'], 'P19': ['cmd'], 'P16': ['signals', 'conf', 'auto', 'late'], 'P17': ['power', 'powerx'], 'P18': ['maps'],
}
NREPLAY = dict(quick=150, thorough=2500)
MULT = dict(cmd=3, file=5, filter=1, maps=4, conff=4, plant=3, bids=8, seqs=2)

def both(pid, quick, seed):
    """(results of the models, batches of scenarios)"""
    res, batches = [], []
    n = NREPLAY['quick' if quick else 'thorough']
    def add(name, r, paths, render, mult=1):
        ps = [list(p) for p in prune(paths)] if name in DMODELS else sorted(paths, key=json.dumps)
        r['behaviours'] = len(ps)
        pick = ps if len(ps) <= n * mult else rng.sample(ps, n * mult)
        r['replayed'] = len(pick)
        res.append((name, r))
        if pick: batches.append(('tlc:' + name, render(pick)))
    for name in USES[pid]:
        rng = random.Random('models/%s/%s/%s' % (pid, name, seed))
        if name in DMODELS:
            r, paths = daemon_model(name, quick, True)
            small = [ABC[i - 1] for i in DMODELS[name][1]]
            add(name, r, paths, lambda ps: [daemon_scn('%s-%d' % (name, i), p, small) for i, p in enumerate(ps)])
        else:
            e = ENUM[name](quick, rng, n)
            for spec, render in (e if isinstance(e, list) else [e]):
                r, paths = run_model(name, spec[0], spec[1], invs=spec[2], props=spec[3] if len(spec) > 3 else (), subst=spec[4] if len(spec) > 4 else ())
                add(name, r, paths, render, MULT.get(name, 1))
    return res, batches
