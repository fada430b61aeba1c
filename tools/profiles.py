"""What is explored for each property: generator knobs, directed scenarios, and the differences that
count against the property.  Nothing is judged here; see spec/Trace.tla for what each name means."""
from gen import *
import itertools

MODEL = {'time', 'lrt', 'dirty', 'known', 'bad', 'run', 'rlist', 'maps', 'etime', 'upd', 'ect', 'chains', 'ctime', 'cstate', 'chist', 'nodes'}
STRUCT = {'refs', 'regions', 'mapdup', 'dangling', 'nmk', 'pair2', 'pairself', 'rdangling', 'ndangling'}
SAVE = {'nosave', 'unsaved', 'protocol', 'saved', 'disk', 'nodisk', 'tmp', 'unreported'}
BOOT = {'refused', 'line', 'touched', 'accepted.conf', 'accepted.line', 'accepted.unread', 'exitcode'}
SERVE = {'alive', 'exitcode', 'fds', 'kids'}
ALL = MODEL | STRUCT | SAVE | BOOT | SERVE | {'law.time', 'law.joint', 'law.departures', 'scores', 'rscores', 'select', 'requests', 'advice',
       'readers', 'prefetch', 'rescored', 'conf', 'scanned', 'unscanned', 'dump', 'confreport', 'reopen', 'stray', 'heap', 'hurried', 'intrusive', 'unforeseen', 'guessed', 'confdump', 'private', 'diverted'}

import recs as R_
import cmdline
# ------------------------------------------------------------------ directed scenarios
def base(sid, algo='VOMM', apps='abc', **kw):
    s = Scn(sid, args=kw.pop('args', ()))
    c = dict(cycle=4, minsize=1000, prediction_algorithm=algo, maxprocs=0, memtotal=0, memfree=100); c.update(kw)
    s.conf(*mkconf(**c))
    for a in apps: s.file('/bin/' + a); s.file('/lib/l' + a)
    return s
def P(s, pid, a): s.proc(pid, '/bin/' + a, [Map('/bin/' + a, 0, 8192), Map('/lib/l' + a, 4096, 4096), Map('/lib/la', 0, 4096), Map('', 0, 4096), Map('[stack]')])

def d_saves(rng, quick, seed):
    """every system call of a save as a crash point and as a failing call"""
    out = []
    acts = [('c', 0), ('c', 7), ('c', 100), ('e', 5), ('e', 28), ('s', 9)] if quick else [('c', 0), ('c', 1), ('c', 7), ('c', 40), ('c', 100), ('c', 300), ('e', 5), ('e', 28), ('e', 13), ('e', 1), ('s', 1), ('s', 9), ('s', 64)]
    for n in range(1, 8):
        for act, arg in acts:
            if quick and act == 'c' and arg and n > 4: continue
            for how in ('USR2', 'TERM', 'auto'):
                for prev in (0, 1, 2):         # no file, a file, a file and a stale temporary
                    if quick and rng.random() > 0.42: continue
                    s = base('save-%d%s%d-%s-%d' % (n, act, arg, how, prev), rng.choice(['VOMM', 'MARKOV']), autosave=1000 if how != 'auto' else 7)
                    P(s, 10, 'a'); s.adv(2); P(s, 11, 'b'); s.adv(2)
                    if prev: s.sig('USR2')
                    P(s, 12, 'c'); s.kill(10); s.adv(2)
                    if prev == 2: s.staletmp()
                    s.fault('any', n, act, rng.choice(ERRNO) if act == 'e' and rng.random() < .4 else arg, rng.choice([1, 1, 1, 2, 3]) if act == 'e' else 1)
                    if how == 'auto': s.adv(4)
                    else: s.sig(how)
                    s.nofault()
                    if how != 'TERM':
                        s.adv(1); s.sig('USR2'); s.adv(1); s.sig('TERM')
                    s.restart(None); s.adv(2); s.sig('USR2'); s.adv(1); s.sig('TERM')
                    s.restart(None); s.adv(1)
                    out.append(s)
    # pairs of failures
    kinds = ['open', 'write', 'sync', 'close', 'rename', 'unlink', 'trunc']
    for a in kinds:
        for b in kinds:
            if quick and rng.random() > 0.35: continue
            s = base('save2-%s-%s' % (a, b), rng.choice(['VOMM', 'MARKOV']))
            P(s, 10, 'a'); s.adv(2); P(s, 11, 'b'); s.adv(2)
            if rng.random() < .7: s.sig('USR2')
            if rng.random() < .4: s.staletmp()
            s.kill(10); s.adv(2)
            s.fault(a, 1, 'e', rng.choice(ERRNO), rng.choice([1, 1, 9])); s.fault(b, rng.choice([1, 2]), rng.choice('eeec'), 28, 1)
            s.sig('USR2'); s.nofault(); s.adv(1); s.sig('USR2'); s.adv(2); s.sig('TERM')
            s.restart(None); s.adv(2); s.sig('TERM')
            out.append(s)
    # many applications: several writes per save
    for k in range(6 if quick else 30):
        apps = [chr(97 + i) for i in range(18)]
        s = base('savebig-%d' % k, apps=apps)
        for i, a in enumerate(apps): P(s, 10 + i, a)
        s.adv(2); s.sig('USR2') if k % 2 else s.adv(1)
        s.kill(10); s.adv(2)
        s.fault('write', rng.randint(1, 4), rng.choice('ces'), rng.choice([0, 100, 4095, 2000, 28]), 1)
        s.sig('USR2'); s.nofault(); s.sig('TERM'); s.restart(None); s.adv(1); s.sig('TERM'); s.restart(None)
        out.append(s)
    return out

ENT = ['/a', '!/a', '/a/b', '!/a/b', '/', '!/', '!', '/ab', '!/b', '/a/b/c/d', '', '!/A', '/B']
PTH = ['/a', '/ab', '/a/b', '/a/bc', '/b', '/a/b/c/d', '/c', '/A', '/B/x']
def d_filters(rng, quick, seed):
    """prefix lists over a small alphabet, for executables and for maps"""
    lists = [()] + [(a,) for a in ENT] + list(itertools.product(ENT, repeat=2)) + (list(itertools.product(ENT[:8], repeat=3)) if not quick else rng.sample(list(itertools.product(ENT, repeat=3)), 40))
    out = []
    for i, l in enumerate(lists):
        m = rng.choice(lists)
        s = Scn('filter-%d' % i)
        s.conf(*mkconf(cycle=2, minsize=1, prediction_algorithm='VOMM', maxprocs=0, exeprefix=list(l) or ['/'], mapprefix=['/'] if i % 2 else list(m) or ['/']) if l or i % 2 else mkconf(cycle=2, minsize=1, prediction_algorithm='MARKOV', maxprocs=0))
        for p in PTH: s.file(p)
        ps = PTH + ['/a.#prelink#.x', '/b (deleted)']
        for k, p in enumerate(ps):
            s.proc(10 + k, p, [Map(q, 4096 * j, 4096) for j, q in enumerate(PTH)] + [Map(p, 65536, 4096)])
        s.adv(3); s.sig('USR2'); s.adv(2)
        out.append(s)
    for i in range(24 if quick else 160):       # long lists, decided by their last entries
        def lst():
            n = rng.choice([15, 16, 17, 31, 33, 60, 63, 64, 65, 128, 200])
            r = [rng.choice(['!/x%d/', '/y%d', '!/a%d']) % j for j in range(n)]
            r += rng.choice([['!/b', '/'], ['/a/b', '!/'], ['!/a/b', '/a', '!/'], ['/'], ['!/'], ['!/a', '!/c', '/']])
            return r
        s = Scn('filter-long-%d' % i)
        s.conf(*mkconf(cycle=2, minsize=1, prediction_algorithm='VOMM', maxprocs=0, exeprefix=lst() if i % 3 else ['/'], mapprefix=lst() if i % 3 != 1 else ['/']))
        for p in PTH: s.file(p)
        for k, p in enumerate(PTH):
            s.proc(10 + k, p, [Map(q, 4096 * j, 4096) for j, q in enumerate(PTH)] + [Map(p, 65536, 4096)])
        s.adv(3); s.sig('USR2'); s.adv(2)
        out.append(s)
    return out

def d_signals(rng, quick, seed):
    """a signal at every call of a cycle"""
    out = []
    for end in ('INT', 'QUIT', 'TERM'):
        for q in ((end,), (end, 'TERM'), ('USR2', end), (end, 'HUP'), ('PIPE', end)):
            s = base('ask-%s' % '-'.join(q), rng.choice(['VOMM', 'MARKOV']), autosave=3600)
            P(s, 10, 'a'); P(s, 11, 'b'); s.adv(3); s.kill(10); s.adv(2); s.sigs(*q)
            s.restart(None); s.adv(2)
            if rng.random() < .5: s.sigat(rng.randint(1, 60), end); s.adv(1)
            s.sig(end); s.restart(None); s.adv(1)
            out.append(s)
    for sig in ('HUP', 'USR1', 'USR2', 'TERM', 'INT', 'QUIT', 'PIPE'):
        for n in range(rng.randint(1, 4) if sig in ('INT', 'QUIT', 'PIPE') else 1, 110 if quick else 260, (12 if sig in ('INT', 'QUIT', 'PIPE') else 4) if quick else 1):
            n2 = n + (rng.randint(0, 3) if quick else 0)
            s = base('sigat-%s-%d' % (sig, n), rng.choice(['VOMM', 'MARKOV']), autosave=rng.choice([3600, 9]), maxprocs=rng.choice([0, 2]))
            P(s, 10, 'a'); P(s, 11, 'b'); s.adv(3); s.kill(10); s.adv(2); P(s, 12, 'c')
            if rng.random() < .4: s.conf(*mkconf(cycle=6, minsize=1000, prediction_algorithm=rng.choice(['VOMM', 'MARKOV']), maxprocs=1))
            s.sigat(n2, sig)
            if rng.random() < .3: s.sigat(n2 + rng.randint(1, 30), rng.choice(['USR1', 'USR2', 'HUP']))
            s.adv(4); s.sig('USR1'); s.adv(2); s.sig('TERM')
            s.restart(None); s.adv(2)
            out.append(s)
    return out

def d_unsaved(rng, quick, seed):
    """saving keeps failing, for several times the time between two saves"""
    out = []
    for k in range(16 if quick else 60):
        a, c = [(40, 4), (100, 9), (61, 5), (200, 20), (35, 7), (300, 30), (75, 3), (130, 11)][k % 8]
        s = base('unsaved-%d' % k, rng.choice(['VOMM', 'MARKOV']), autosave=a, cycle=c, doscan=rng.random() < .8)
        P(s, 10, 'a'); s.adv(rng.choice([1, 4]))
        if rng.random() < .3: s.adv(a // c); P(s, 11, 'b')
        s.fault(*rng.choice([('open', 1, 'e', 28), ('open', 1, 'e', 13), ('write', 1, 'e', 28), ('rename', 1, 'e', 5), ('fsync', 1, 'e', 5), ('write', 1, 's', 7)]), 99)
        s.adv(3 * a // c + 8)
        if rng.random() < .4: s.sig('USR2'); s.adv(4)
        s.nofault(); s.adv(2 * a // c + 4); s.sig('TERM'); s.restart(None); s.adv(1)
        out.append(s)
    return out

def d_steady(rng, quick, seed):
    """the same activity again and again must not use more and more"""
    out = []
    for k in range(6 if quick else 24):
        s = base('steady-%d' % k, 'VOMM' if k % 2 else 'MARKOV', maxprocs=[0, 2][k // 2 % 2], exeprefix=['/bin', '!/x'], mapprefix=['/bin', '/lib', '!/opt'])
        conf = (s.confst, s.conftext)
        bad = (dict(st='ok', kv=[dict(g='model', k='cycle', ok=False, v=0)]), '[system]\nmapprefix=/a;/b;\nexeprefix=/c;\n[model]\ncycle=x\n')
        def rnd(tag):
            P(s, 10, 'a'); s.adv(2); P(s, 11, 'b'); s.adv(2); s.kill(10); s.adv(2); s.sig('USR2'); s.kill(11); s.adv(2)
            if k % 2: s.proc(12, '/bin/c', [Map('/bin/c', 0, 8192), Map('/lib/la', 0, 4096)], then=[]); s.adv(8); s.kill(12)
            if k % 3 == 0: s.sig('HUP')
            if k % 3 == 1: s.conf(*bad); s.sig('HUP'); s.conf(*conf); s.sig('HUP')
            if k % 3 == 2: s.sigs('USR1', 'HUP', 'USR2')
            if k >= 3:      # forgotten and found again
                s.file('/bin/a', 'n'); s.sig('USR2'); s.file('/bin/a', 'r')
            s.adv(1); s.adv(1, steady=tag)
        for r in range(8): rnd(0 if r < 4 else 1)
        s.sig('TERM')
        out.append(s)
    return out

def d_records(rng, quick, seed):
    """state files with a defect or an oddity in a record, and whole ones"""
    out = []
    for i in range(420 if quick else 3000):
        c = R_.content(rng)
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            if c: c = R_.mutate(rng, c)
        out.append(R_.scenario(rng, 'rec-%d' % i, c))
    for i, v in enumerate(R_.VERSIONS):
        out.append(R_.scenario(rng, 'ver-%d' % i, [R_.header(7, v)] + R_.content(rng)[1:]))
    return out
def d_bytes(rng, quick, seed):
    """any bytes"""
    out = []
    for i in range(260 if quick else 3000):
        b = b'' if rng.random() < .02 else bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 60))) if rng.random() < .05 else R_.damage(rng, R_.to_bytes(rng, R_.content(rng)))
        out.append(R_.light(rng, 'bytes-%d' % i, b))
    return out
def d_names(rng, quick, seed):
    out = []
    for i in range(3): out.append(R_.light(rng, 'nofile-%d' % i, None))
    return out

def d_power(rng, quick, seed):
    out = []
    st = ['Discharging\n', 'Charging\n', 'Full\n', None, 'Discharging', 'Not charging\n', '', 'Discharging \n', '\tDischarging\n', 'discharging\n', 'Discharging..\n']
    for i, seq in enumerate(itertools.product(range(4), repeat=3)):
        s = base('power-%d' % i, rng.choice(['VOMM', 'MARKOV']), cycle=rng.choice([2, 5, 6]), autosave=rng.choice([3600, 11]), doscan=rng.random() < .9, dopredict=rng.random() < .9)
        P(s, 10, 'a'); s.adv(2)
        for j, x in enumerate(seq):
            if j == 1: P(s, 11, 'b')
            if j == 2: s.kill(10)
            s.bat(rng.randint(0, 9), rng.choice(st)); s.bat(0 if x % 2 else rng.randint(1, 9), st[0] if x < 2 else rng.choice(st))
            if rng.random() < .3: s.adv(1); s.sig(rng.choice(['USR2', 'USR1', 'HUP'])); s.adv(1)
            else: s.adv(2)
            if rng.random() < .5:
                for q in range(10): s.bat(q, None)
        for q in range(10): s.bat(q, None if rng.random() < .7 else 'Full\n')
        s.adv(4); s.sig('TERM')
        out.append(s)
    return out

def d_conf(rng, quick, seed):
    """every key alone, every key missing, every key wrongly typed; at start-up and at a reload"""
    keys = dict(cycle=7, usecorrelation=False, minsize=5, memtotal=-20, memfree=31, memcached=7, membuffers=-3, doscan=False, dopredict=False, autosave=77,
                mapprefix=['/x', '!/'], exeprefix=['!/y', '/bin'], prediction_algorithm='MARKOV', maxprocs=4, processes=5, sortstrategy=1)
    full = dict(keys); full.pop('processes')
    bads = {k: ('maybe' if k in BOOLK else '1x') for k in keys if k not in LISTK and k != 'prediction_algorithm'}
    out = []
    def mk(d): return mkconf(**d)
    def wrong(k, more):
        d, t = mkconf(**{x: y for x, y in more.items() if x != k})
        g = 'model' if k in MODELK else 'system'
        d['kv'].append(dict(g=g, k=k, ok=False, v=0)); t += '[%s]\n%s=%s\n' % (g, k, bads[k])
        return d, t
    cs = [('only-' + k, mk({k: v})) for k, v in keys.items()] + [('but-' + k, mk({x: y for x, y in full.items() if x != k})) for k in full]
    cs += [('bad-' + k, wrong(k, full)) for k in bads] + [('bad1-' + k, wrong(k, {})) for k in bads]
    cs += [('all', mk(full)), ('none', mk({})), ('missing', (dict(st='missing'), None)), ('junk', (dict(st='malformed'), 'hello\n')), ('both', mk(dict(maxprocs=3, processes=9))),
           ('onlygroup', (dict(st='ok', kv=[]), '[system]\n')), ('empty', (dict(st='ok', kv=[]), '')), ('comment', (dict(st='ok', kv=[]), '# nothing\n\n')),
           ('unknown', (dict(st='ok', kv=[dict(g='model', k='zzz', ok=True, v='q'), dict(g='other', k='cycle', ok=True, v=5), dict(g='system', k='cycle', ok=True, v=9)]), '[model]\nzzz=q\n[other]\ncycle=5\n[system]\ncycle=9\n')),
           ('twice', (dict(st='ok', kv=[dict(g='model', k='cycle', ok=True, v=5), dict(g='model', k='cycle', ok=True, v=9)]), '[model]\ncycle=5\n[model]\ncycle=9\n')),
           ('vommish', mk(dict(prediction_algorithm='"VOMM"'))), ('novomm', mk(dict(prediction_algorithm='vomm'))), ('nopfx', (dict(st='ok', kv=[dict(g='system', k='exeprefix', ok=True, v=[]), dict(g='system', k='mapprefix', ok=True, v=[])]), '[system]\nexeprefix=\nmapprefix=\n'))]
    for n, c in cs:
        s = Scn('conf-' + n); s.conf(*c); s.file('/bin/a'); s.proc(10, '/bin/a', [Map('/bin/a', 0, 4096 * 700)])
        s.adv(1); s.sig('USR1'); s.sig('HUP'); s.adv(1)
        out.append(s)
    for i in range(60 if quick else 400):
        s = Scn('reload-%d' % i); s.conf(*mk(full)); s.file('/bin/a'); s.proc(10, '/bin/a', [Map('/bin/a', 0, 4096 * 700)]); s.adv(rng.randint(0, 2))
        for _ in range(rng.randint(1, 4)):
            s.conf(*rng.choice(cs)[1])
            s.sig('HUP')
            if rng.random() < .3: s.sig('USR1')
            s.adv(rng.randint(0, 2))
        s.sig('TERM'); out.append(s)
    s = Scn('noconf', noconf=True); s.file('/bin/a'); s.proc(10, '/bin/a', [Map('/bin/a', 0, 4096 * 700)]); s.adv(3); s.sig('HUP'); s.adv(2); out.append(s)
    return out

WORDS = ['-f', '-f', '-f', '-c@/c1', '-c', '@/c1', '@/c2', '--conffile=@/c2', '--conf', '-c@/cx', '-c', '-s@/st/s1', '-s', '@/st/s2', '--state', '--statefile=@/st/sx', '--sta=', '', '-l@/l1', '-l', '@/l2', '--logfile=', '--log=@/l2', '-l@/no/l',
         '-d', '--debug', '-fd', '-fV9', '-V', '0', '1', '2', '3', '10', '--verbose', '--verb=0', '--verbose=5', '-V6', '-n5', '--nice=-3', '--nic', '-n', '-7', '--help', '-h', '-v', '--version', '--ver', '-q', '-fq', '--bogus', 'x', '--', '--debug=1', '-', '--foreground', '--fore']
def d_cmd(rng, quick, seed):
    """lists of arguments"""
    W = [w for w in WORDS if w not in ('--help', '-h', '-v', '--version', '--ver', '-q', '-fq', '--bogus', '--debug=1', '-l@/no/l', '-c@/cx')]
    return [cmdline.Cmd('args-%d' % i, [rng.choice(WORDS if i % 3 == 0 else W) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8]))], rng) for i in range(700 if quick else 6000)]

def d_cmd2(rng, quick, seed): return [c for i, c in enumerate(d_cmd(rng, quick, seed)) if i % 3 == 0]

def d_dumps(rng, quick, seed):
    """a report at every moment of a cycle, several at once, and with every kind of value in force"""
    out = []
    lists = [[], ['/'], ['!/'], ['/bin', '!/opt/x y', '/lib'], [''], ['a;b', 'c\\\\d'.replace('\\\\', '\\')], ['!']]
    for i in range(60 if quick else 500):
        c = dict(cycle=rng.choice([1, 4, 7, 1000]), usecorrelation=rng.random() < .5, minsize=rng.choice([0, 1, 9000, 2000000, -5, 2147483647]), memtotal=rng.choice([-100, -10, 0, 70]), memfree=rng.choice([0, 50, 101]),
                 memcached=rng.choice([-3, 0, 12]), membuffers=rng.choice([0, 50, -50]), doscan=rng.random() < .8, dopredict=rng.random() < .8, autosave=rng.choice([5, 3600, 86400]), maxprocs=rng.choice([0, 1, 30, -1]),
                 sortstrategy=rng.choice([0, 1, 2, 3, 7]), prediction_algorithm=rng.choice(['VOMM', 'MARKOV', 'xVOMMx', 'markov', '', '12']), mapprefix=rng.choice(lists), exeprefix=rng.choice(lists[:1] + lists[1:2] + lists[3:]))
        for k in list(c):
            if rng.random() < .3: del c[k]
        s = Scn('dump-%d' % i); s.conf(*mkconf(**c))
        for a in 'abc': s.file('/bin/' + a); s.file('/lib/l' + a)
        P(s, 10, 'a'); s.adv(1); s.sig('USR1'); P(s, 11, 'b'); s.adv(rng.randint(1, 3)); s.sigs(*rng.choice([('USR1', 'USR1'), ('USR2', 'USR1'), ('HUP', 'USR1'), ('USR1', 'HUP', 'USR1')]))
        s.kill(10); P(s, 12, 'c'); s.sigat(rng.randint(1, 60), 'USR1'); s.adv(3)
        c2 = {k: v for k, v in c.items() if rng.random() < .6}; c2['maxprocs'] = rng.choice([3, 9]); s.conf(*mkconf(**c2)); s.sig('USR1'); s.sig('HUP'); s.sig('USR1')
        if rng.random() < .4: s.file('/bin/b', 'n'); s.sig('USR2'); s.sig('USR1')
        s.adv(2); s.sig('USR1'); s.sig('TERM'); s.restart(None); s.adv(1); s.sig('USR1')
        out.append(s)
    return out

def d_plant(rng, quick, seed):
    """something at the temporary's name, put there at any moment, and failing calls besides"""
    out = []
    for k in 'rlhd':
        for pre in ('', 'r', 'l', 'h'):
            for after in (0, 1, 2):
                if (after > 0) != (pre != ''): continue
                for how in ('USR2', 'TERM', 'auto'):
                    for prev in (0, 1):
                        for flt in (None, 'open', 'write', 'rename', 'unlink', 'crash'):
                            if quick and flt and rng.random() > .35: continue
                            s = base('plant-%s%s%d-%s-%d-%s' % (pre, k, after, how, prev, flt), rng.choice(['VOMM', 'MARKOV']), autosave=1000 if how != 'auto' else 7)
                            P(s, 10, 'a'); s.adv(2)
                            if prev: s.sig('USR2')
                            P(s, 11, 'b'); s.adv(2)
                            if pre: s.staletmp(pre)
                            s.staletmp(k, after)
                            if flt == 'crash': s.fault('any', rng.randint(1, 6), 'c', rng.choice([0, 50]))
                            elif flt: s.fault(flt, rng.choice([1, 2]), 'e', rng.choice([5, 13, 28]), 1)
                            if how == 'auto': s.adv(4)
                            else: s.sig(how)
                            s.nofault()
                            if how != 'TERM': s.adv(1); s.sig('USR2'); s.sig('TERM')
                            s.restart(None); s.adv(2); s.sig('USR2'); s.staletmp('r'); s.kill(10); s.adv(2); s.sig('USR2'); s.sig('TERM'); s.restart(None); s.adv(1)
                            out.append(s)
    return out

def d_reads(rng, quick, seed):
    """a state file read in pieces, with interruptions and failures at any read"""
    out = []
    for i in range(260 if quick else 2500):
        s = base('reads-%d' % i, rng.choice(['VOMM', 'MARKOV']), apps='abcdefghijkl'[:rng.choice([2, 3, 5, 12])])
        apps = sorted({chr(p[5]) if isinstance(p, bytes) else p[5] for p in s.files if (p if isinstance(p, bytes) else p.encode()).startswith(b'/bin/')})
        for j, a in enumerate(apps):
            P(s, 10 + j, a)
            if rng.random() < .4: s.adv(1)
        s.adv(2)
        if rng.random() < .6: s.kill(10); s.adv(2)
        s.sig('TERM')
        for life in range(rng.choice([1, 1, 2, 3])):
            s.restart(None)
            x = rng.random()
            if x < .12: s.fault('ropen', 1, 'e', rng.choice([13, 13, 5, 24, 2]), 1)
            elif x < .3: s.fault('read', 1, 's', rng.choice([1, 1, 2, 3, 7, 100, 1023]), 100000)
            elif x < .6: s.fault('read', rng.randint(1, 5), 'e', rng.choice([5, 21, 5, 116]), rng.choice([1, 1, 99]))
            else:
                for q in range(1, rng.randint(2, 9)):
                    y = rng.random()
                    if y < .5: s.fault('read', q, 's', rng.choice([1, 5, 40, 200, 1000]), 1)
                    elif y < .75: s.fault('read', q, 'e', 4, 1)
                    elif y < .85: s.fault('read', q, 'e', 5, 1)
            if rng.random() < .3: s.kill(11)
            s.begin(); s.adv(rng.choice([1, 2, 3])); s.nofault()
            if rng.random() < .5: s.sig('USR2'); s.adv(1)
            s.sig('TERM')
        s.restart(None); s.adv(2); s.sig('TERM')
        out.append(s)
    return out

def d_crowd(rng, quick, seed):
    """many of everything: applications, processes, regions, mappings"""
    out = []
    for k in range(10 if quick else 60):
        kind = ['regions', 'procs', 'maps', 'all', 'launches'][k % 5]
        n = dict(regions=13, procs=6, maps=4, all=10, launches=9)[kind]
        apps = [chr(97 + i) for i in range(n)]
        s = base('crowd-%s-%d' % (kind, k), 'VOMM' if kind == 'launches' else rng.choice(['VOMM', 'MARKOV']), apps=apps, cycle=rng.choice([2, 4]), maxprocs=rng.choice([0, 1, 4, 30]),
                 sortstrategy=rng.choice([0, 1, 2, 3]), exeprefix=['/bin', '!/opt', '/'] if kind in ('procs', 'all') else ['/'], minsize=rng.choice([1000, 30000]), memtotal=rng.choice([0, 0, 100]))
        s.mem(total=8000000, free=rng.choice([600, 4000, 4000000]), buffers=100, cached=rng.choice([0, 500, 100000]))
        libs = ['/lib/x%d' % i for i in range(16 if kind in ('regions', 'all') else 5)]
        for i, l in enumerate(libs): s.file(l, ino=100 + i, blk=rng.randint(0, 9) * 1000)
        def maps(a, m):
            r = [Map('/bin/' + a, 0, 8192)]
            for _ in range(m):
                x = rng.random()
                r.append(Map(rng.choice(libs), 4096 * rng.randint(0, 5), 4096 * rng.randint(1, 3)) if x < .7 else rng.choice([Map('', 0, 4096), Map('[heap]', 0, 8192), Map('/lib/l' + a, 0, 4096), Map('/dev/zero (deleted)', 0, 4096)]))
            return r
        many = dict(regions=16, procs=3, maps=rng.choice([150, 400]), all=14, launches=2)[kind]
        pid = itertools.count(rng.choice([10, 1000, 32000, 4194000 - 400]))
        alive = {}
        def go(a):
            q = next(pid); s.proc(q, '/bin/' + a, maps(a, many)); alive[q] = a
        if kind in ('procs', 'all'):
            for i in range(220 if kind == 'procs' else 90):
                x = rng.random(); q = next(pid); alive[q] = None
                if x < .35: s.proc(q, '/opt/r%d' % (i % 23), [Map('/lib/x1', 0, 4096)])
                elif x < .6: s.proc(q, '-' if x < .5 else '+')
                else:
                    a = rng.choice(apps); s.proc(q, '/bin/' + a, maps(a, many)); alive[q] = a
        if kind == 'launches':
            for r in range(26 if quick else 60):
                a = rng.choice(apps[:rng.choice([3, 9])])
                old = [q for q, b in alive.items() if b == a]
                for q in old: s.kill(q); del alive[q]
                if old and rng.random() < .8: s.adv(2)
                go(a); s.adv(rng.choice([1, 2, 2]))
                if rng.random() < .3 and alive:
                    q = rng.choice(list(alive)); s.kill(q); del alive[q]
                if rng.random() < .04: s.sig('TERM'); s.newseg(None)
        else:
            for a in apps[:n - 2]: go(a)
            s.adv(2)
            for q in rng.sample(list(alive), len(alive) // 2): s.kill(q); del alive[q]
            for a in apps[n - 2:]: go(a)
            s.adv(2)
            for q in rng.sample(list(alive), len(alive) * 2 // 3): s.kill(q); del alive[q]
            if kind == 'regions':
                for a in rng.sample(apps, n // 2): s.file('/bin/' + a, 'n')
                s.sig('USR2')
            s.adv(2)
        s.sig('TERM'); s.newseg(None); s.adv(2); s.sig('TERM')
        out.append(s)
    return out

def d_wide(rng, quick, seed):
    """an application with very many regions, all asked for at once"""
    out = []
    for k in range(4 if quick else 16):
        s = base('wide-%d' % k, 'VOMM' if k % 2 else 'MARKOV', apps='ab', cycle=4, maxprocs=[0, 3][k // 2 % 2], exeprefix=['/bin'], sortstrategy=k % 4, minsize=1000)
        s.mem(total=8000000, free=4000000, buffers=0, cached=rng.choice([0, 4000000]))
        n = [140, 150, 260, 135][k % 4] if quick else rng.choice([127, 128, 129, 130, 255, 256, 257, 300])
        libs = ['/lib/la', '/lib/wide', '/lib/wider'][:rng.choice([1, 2, 3])]
        for l in libs: s.file(l)
        big = [Map('/bin/a', 0, 8192)] + [Map(libs[i % len(libs)], 65536 * i, 4096) for i in range(1, n)]
        P(s, 10, 'b'); s.adv(2); s.proc(11, '/bin/a', big); s.adv(8); s.kill(10); s.kill(11); s.adv(4)
        if k % 2 == 0:
            for _ in range(2): P(s, 20, 'b'); s.adv(6); s.proc(21, '/bin/a', big); s.adv(4); s.kill(21); s.adv(4); s.kill(20); s.adv(2)
        P(s, 12, 'b'); s.adv(4)
        if not quick: s.proc(13, '/bin/a', big); s.adv(2)
        s.sig('TERM'); s.newseg(None); s.adv(2)
        out.append(s)
    return out

def d_long(rng, quick, seed):
    """maps lines that are longer than any buffer, whose names look like maps lines themselves"""
    out = []
    for k in range(40 if quick else 300):
        s = base('long-%d' % k, rng.choice(['VOMM', 'MARKOV']), minsize=rng.choice([1000, 9000, 40000]))
        s.file('/lib/evil'); s.file('/lib/far')
        def name():
            frag = rng.choice(['0040-0050 r 0 0:0 5 /lib/evil/', '00400000-00500000 r-xp 00000000 08:01 5   /lib/far', ' 1000-9000 rw-p 0 fd:00 77 /lib/la ', 'x'])
            n = '/' + 'd' * rng.randint(0, 60) + frag * 150
            return n[:rng.choice([400, 511, 512, 513, 700, 940, 948, 949, 950, 951, 960, 1022, 1023, 1024, 1100, 2000, 2044, 3000, 4095])].rstrip()
        for i, a in enumerate('abc'):
            m = [Map('/bin/' + a, 0, 8192), Map('/lib/l' + a, 4096, 4096)]
            for _ in range(rng.randint(1, 4)): m.insert(rng.randint(0, len(m)), Map(name(), 4096 * rng.randint(0, 3), 4096))
            s.proc(10 + i, '/bin/' + a, m)
            if rng.random() < .4: s.adv(2)
        s.adv(4); s.sig('TERM'); s.newseg(None); s.adv(2)
        out.append(s)
    return out

def crowd(*kinds):
    def f(rng, quick, seed): return [s for s in d_crowd(rng, quick, seed) if s.id.split('-')[1] in kinds]
    f.__name__ = 'd_crowd'
    return f

def hist(n, **kw):
    def f(rng, quick, seed, name):
        return [Gen(random.Random('%s/%s/%d' % (seed, name, i)), '%s-%d' % (name, i), **kw).history() for i in range(n if quick else n)]
    return f

CMD = {'cmd.' + x for x in 'rc out err started state conf detached nice saved shown told other lost'.split()} | {'exitcode'}
MIX = dict(names=.3, between=.06, preset=.15, prefix=.15, odd=.15, oddmaps=.15, overlap=.3, libkinds=.2, mem=.3, pct=[-100, 0, 50, 100], kinds='nndst', minsize=(0, 9000, 30000),
           autosave=(3, 7, 60, 3600),
           w=dict(dying=1, rmfile=1, mkfile=1, deleted=.5, prelink=.5, thread=.3, selfp=.3, weird=.3, usr1=.3, usr2=1, hup=.5, reconf=1, bat=1, mem=1, fault=1,
                  crash=.3, term=.4, burst=.4, sigat=.5, late=.5, forkfail=.3, ra=.3, rot=.2, stale=.2, swap=1))
W = lambda **w: w

# property -> fields, lines on which they count, profiles [(name, number, knobs)], directed
PROPS = {
 'P01': dict(f=SAVE | {'alive', 'refused', 'dirty', 'stray', 'exitcode'}, d=[d_saves],
             h=[('faults', 60, dict(steps=30, autosave=(3, 9, 3600), w=W(fault=3, crash=1.5, stale=.6, usr2=1, term=.6)))]),
 'P02': dict(f=SAVE | {'alive', 'dirty', 'refused', 'accepted.line'}, fl=MODEL, d=[crowd('procs', 'all', 'regions')],
             h=[('restarts', 60, dict(names=.35, steps=35, autosave=(3, 9, 3600), w=W(term=1.5, usr2=1.5, crash=.3, swap=1, rmfile=.2, mkfile=.2))),
                ('names', 36, dict(steps=25, odd=.7, long=.15, oddmaps=.2, w=W(term=1.5, usr2=1))),
                ('far', 16, dict(unit=4096, far=.5, steps=20, minsize=(1,), w=W(term=1.5, usr2=1, swap=1))),
                ('switch', 30, dict(steps=40, vomm=.5, w=W(term=1.5, usr2=1, reconf=1, fault=.7, usr1=.2, sigat=.5))),
                ('preset', 30, dict(names=.35, preset=1, apps=5, steps=25, autosave=(3, 9, 3600), w=W(term=2, usr2=1.5, swap=1, fault=.3)))]),
 'P03': dict(f=STRUCT | BOOT | {'alive'}, fl=MODEL, d=[d_records, d_bytes, d_names]),
 'P04': dict(f={'lrt', 'known', 'bad', 'run', 'rlist', 'scanned', 'unscanned', 'rdangling', 'alive'}, d=[d_long, crowd('procs', 'all')],
             h=[('procs', 70, dict(names=.35, between=.2, oddmaps=.3, minsize=(0, -5, 9000, 20000, 30000), w=W(dying=2, deleted=1, prelink=1, thread=1, selfp=1, weird=.5, swap=2, more=2, usr2=.5))),
                ('filters', 40, dict(names=.35, prefix=.6, minsize=(0, 9000, 30000), w=W(reconf=.7, usr2=.5, deleted=.5, prelink=.5, swap=1))),
                ('quick', 30, dict(cycle=(1, 2), minsize=(20000,), w=W(dying=3, swap=3, more=2, usr2=1, rmfile=.5, mkfile=.5))),
                ('chances', 40, dict(minsize=(9000, 20000, 30000), steps=45, autosave=(5, 3600), w=W(fault=2, usr2=1.5, swap=2, rmfile=.3, mkfile=.3)))]),
 'P05': dict(f={'known', 'bad', 'maps', 'rlist', 'regions', 'alive'}, d=[d_filters, crowd('procs')],
             h=[('lists', 60, dict(names=.35, prefix=.9, odd=.2, minsize=(1,), steps=25, invalid=0, w=W(reconf=2, swap=1, usr2=.5, prelink=.3, rmfile=.3, mkfile=.3)))]),
 'P06': dict(f={'etime', 'ctime', 'law.time', 'law.joint', 'time', 'upd', 'alive'},
             h=[('times', 80, dict(names=.35, apps=4, w=W(swap=2, more=1, term=.6, usr2=.7, bat=.6, reconf=.5, dying=.5))),
                ('odd', 40, dict(cycle=(1, 3, 7, 20, 60), doscan=.7, w=W(swap=2, term=.8, crash=.3, bat=1.5, reconf=1.2, rmfile=.6, mkfile=.6, usr2=1))),
                ('preset', 30, dict(preset=1, apps=4, steps=30, w=W(swap=2, term=.5, usr2=.4, bat=.4)))]),
 'P07': dict(f={'chains', 'cstate', 'chist', 'ect', 'law.departures', 'pair2', 'pairself', 'nmk', 'alive'}, d=[crowd('procs', 'launches')],
             h=[('chains', 70, dict(names=.35, apps=4, w=W(swap=3, term=.5, usr2=.5, dying=.7, more=1))),
                ('five', 30, dict(apps=6, steps=55, vomm=.3, cycle=(1, 4, 5), w=W(swap=3, term=.5, bat=.7, rmfile=.7, mkfile=.7, usr2=1, reconf=.5, dying=.5))),
                ('preset', 40, dict(names=.35, preset=1, apps=4, steps=30, w=W(swap=3, term=.5, usr2=.4, rmfile=.3, mkfile=.3)))]),
 'P08': dict(f={'nodes', 'ndangling', 'alive'}, d=[crowd('launches')],
             h=[('launches', 90, dict(names=.35, apps=5, vomm=1, steps=60, w=W(swap=4, start=6, stop=5, term=.4, usr2=.5))),
                ('switch', 40, dict(apps=4, vomm=.6, steps=50, w=W(swap=3, reconf=1.5, rmfile=.7, mkfile=.7, usr2=1, term=.6))),
                ('preset', 40, dict(names=.35, preset=1, apps=4, vomm=.9, steps=40, w=W(swap=4, start=6, stop=5, term=.5, usr2=.4, rmfile=.3, mkfile=.3)))]),
 'P09': dict(f={'scores', 'rscores', 'rescored', 'alive'},
             h=[('markov', 100, dict(names=.35, vomm=0, apps=4, steps=45, cycle=(1, 2, 4, 5, 20, 60), w=W(swap=3, term=.3, reconf=.4))),
                ('nocorr', 40, dict(vomm=0, corr=.1, apps=5, steps=45, cycle=(1, 7, 60), w=W(swap=3, rmfile=.4, mkfile=.4, usr2=.5))),
                ('preset', 60, dict(preset=1, vomm=0, apps=4, steps=22, cycle=(1, 2, 4, 20, 60), w=W(swap=3, reconf=.5)))]),
 'P10': dict(f={'scores', 'rscores', 'rescored', 'alive'}, d=[crowd('launches')],
             h=[('vomm', 100, dict(vomm=1, apps=5, steps=45, w=W(swap=3, start=5, stop=4, term=.4, usr2=.3))),
                ('removal', 40, dict(names=.35, vomm=.9, apps=4, steps=45, w=W(swap=3, term=.5, rmfile=.6, mkfile=.6, usr2=1, reconf=.4))),
                ('preset', 60, dict(preset=1, vomm=1, apps=5, steps=22, w=W(swap=3, start=4, stop=4, term=.2)))]),
 'P11': dict(f={'select', 'alive'}, d=[d_wide, crowd('regions', 'all')],
             h=[('far', 20, dict(unit=4096, far=.3, minsize=(1,), steps=25, pct=[0, 50, 100], mem=1, w=W(mem=5, swap=2))),
                ('memory', 100, dict(vomm=.5, pct=[-200, -100, -50, -1, 0, 1, 10, 33, 50, 99, 100, 200], mem=1, w=W(mem=5, reconf=1, swap=2))),
                ('pages', 40, dict(unit=4096, minsize=(100000,), pct=[-100, -10, 0, 10, 50, 100, 150], mem=1, w=W(mem=5, reconf=.6, swap=2))),
                ('preset', 60, dict(preset=1, apps=5, regs=6, oddlen=.35, vomm=.5, steps=25, pct=[-100, -50, 0, 1, 10, 50, 100], mem=1, w=W(mem=5, swap=2, reconf=.6)))]),
 'P12': dict(f={'requests', 'advice', 'readers', 'alive', 'kids', 'fds', 'prefetch'}, d=[d_wide, crowd('regions', 'all')],
             h=[('regions', 90, dict(names=.35, overlap=.75, libs=3, regs=6, libkinds=.3, initfiles=.9, vomm=.6, steps=35, w=W(ra=2, mkfile=1, forkfail=.8, reconf=1, sigchld=.3, swap=2))),
                ('far', 20, dict(unit=4096, far=.4, overlap=.6, libs=2, regs=5, minsize=(1,), steps=22, w=W(swap=2, reconf=.6, ra=1))),
                ('plain', 40, dict(overlap=.5, regs=6, libs=2, steps=35, w=W(reconf=1.2, swap=2, sigchld=.5, usr2=.3))),
                ('preset', 50, dict(names=.35, preset=1, apps=5, libs=2, regs=6, overlap=.7, oddlen=.2, libkinds=.35, steps=25, w=W(swap=2, reconf=1, ra=1, forkfail=.5, mkfile=.5)))]),
 'P13': dict(f={'known', 'bad', 'maps', 'rlist', 'chains', 'nodes', 'dirty', 'etime', 'ctime', 'alive'} | STRUCT, d=[crowd('regions')],
             h=[('gone', 90, dict(names=.35, kinds='nnnndstolib', steps=50, autosave=(3, 9, 60, 3600), minsize=(1000, 20000), w=W(rmfile=2, mkfile=2, kind=1.5, usr2=2.5, swap=1.5, fault=.4))),
                ('relaunch', 40, dict(kinds='nnds', apps=3, vomm=.9, steps=55, w=W(rmfile=2, mkfile=2, usr2=2, swap=2, term=.4, crash=.2))),
                ('preset', 40, dict(names=.35, preset=1, kinds='nnnndstlibvm', apps=5, steps=30, initfiles=.8, w=W(rmfile=2, mkfile=2, usr2=2.5, swap=1.5, term=.5, fault=.3)))]),
 'P14': dict(f=STRUCT | SERVE | {'heap', 'stray'}, d=[d_steady, crowd('procs', 'maps', 'regions')],
             h=[('mix', 70, dict(MIX, apps=5, steps=50)), ('debug', 25, dict(MIX, args=['-V', '9'], steps=30)),
                ('removal', 40, dict(names=.35, between=.1, kinds='nnds', steps=50, w=W(rmfile=2, mkfile=2, usr2=2, swap=2, dying=1, term=.4, reconf=.5, burst=.5))),
                ('preset', 30, dict(preset=1, kinds='nnds', apps=5, steps=35, initfiles=.8, w=W(rmfile=2, mkfile=2, usr2=2, swap=2, term=.4, reconf=.5, burst=.3)))]),
 'P15': dict(f={'conf', 'confreport', 'accepted.conf', 'refused', 'alive', 'exitcode', 'time', 'known', 'bad', 'maps', 'scanned', 'unscanned', 'prefetch', 'rescored', 'scores', 'rscores', 'select', 'requests', 'readers', 'nodes', 'reopen'} | SAVE, d=[d_conf],
             h=[('reloads', 60, dict(prefix=.4, pct=[-100, 0, 50, 150], invalid=.4, doscan=.7, dopredict=.7, autosave=(5, 3600), w=W(reconf=3, hup=.5, term=.4, usr1=.4))),
                ('effect', 40, dict(names=.35, prefix=.3, apps=5, pct=[-100, 0, 10, 50, 150], mem=1, minsize=(1, 9000, 20000), cycle=(1, 2, 3, 5, 9), invalid=.15, doscan=.8, dopredict=.85, autosave=(2, 3, 7, 11, 3600), steps=45,
                                    w=W(reconf=3, mem=1, swap=2, usr2=.1)))]),
 'P16': dict(f={'time', 'lrt', 'scanned', 'unscanned', 'prefetch', 'rescored', 'dump', 'confreport', 'reopen', 'alive', 'exitcode', 'conf', 'stray'} | SAVE, fs=MODEL, d=[d_signals, d_unsaved],
             h=[('signals', 60, dict(autosave=(2, 3, 7, 3600), cycle=(1, 2, 3, 4, 5, 9), steps=35, doscan=.8, dopredict=.8,
                                     w=W(usr1=1, usr2=1.5, hup=1, burst=1, sigat=2, rot=.5, reconf=.7, term=.5, swap=1))),
                ('late', 40, dict(autosave=(2, 3, 7, 60, 3600), cycle=(1, 2, 3, 5, 20), steps=35, w=W(late=4, usr1=.5, usr2=.7, burst=.5, reconf=.7, term=.5, bat=.7, swap=1)))]),
 'P17': dict(f={'time', 'lrt', 'scanned', 'unscanned', 'prefetch', 'rescored', 'dirty', 'known', 'run', 'alive'} | SAVE, d=[d_power],
             h=[('battery', 60, dict(cycle=(1, 2, 3, 4, 5, 20), autosave=(7, 3600), doscan=.85, dopredict=.85, w=W(late=.7, bat=5, usr2=.5, usr1=.3, reconf=.4, swap=1.5)))]),
 'P18': dict(f={'maps', 'refs', 'regions', 'mapdup', 'dangling', 'alive'}, d=[d_long, crowd('maps', 'regions')],
             h=[('maps', 60, dict(names=.35, between=.15, oddmaps=.6, overlap=.4, regs=6, steps=25, minsize=(1,), w=W(swap=2, usr2=.4, rmfile=.4, mkfile=.4))),
                ('names', 40, dict(odd=.8, long=.12, oddmaps=.4, steps=20, minsize=(1,), w=W(swap=2, term=.4, prelink=.4, deleted=.4))),
                ('far', 24, dict(unit=4096, far=.5, overlap=.4, regs=6, steps=22, minsize=(1,), w=W(swap=2, term=.5, usr2=.4))),
                ('filters', 30, dict(names=.35, prefix=.7, overlap=.4, regs=6, steps=25, minsize=(1,), w=W(swap=2, reconf=1, term=.3))),
                ('preset', 30, dict(names=.35, preset=1, oddmaps=.4, overlap=.4, oddlen=.2, regs=6, steps=25, minsize=(1,), w=W(swap=2, usr2=.6, rmfile=.6, mkfile=.6, term=.4)))]),
 'P20': dict(f={'hurried', 'intrusive', 'stray', 'alive', 'kids', 'fds', 'tmp'}, d=[crowd('regions', 'procs')],
             h=[('pipes', 60, dict(overlap=.5, regs=6, libs=3, libkinds=.35, initfiles=.9, kinds='nsd', steps=35, w=W(ra=1.5, mkfile=1.5, kind=1, forkfail=.4, reconf=1, sigchld=.3, swap=2, usr2=.6, term=.3))),
                ('mix', 40, dict(MIX, apps=5, steps=40)),
                ('preset', 40, dict(names=.35, preset=1, apps=5, libs=2, regs=6, libkinds=.4, kinds='nsd', steps=25, w=W(swap=2, reconf=1, ra=1, kind=1, mkfile=1, usr2=.4, term=.3, fault=.2)))]),
 'P21': dict(f={'unforeseen', 'guessed', 'scores', 'rscores', 'select', 'requests', 'prefetch', 'rescored', 'nodes', 'alive'}, d=[crowd('launches')],
             h=[('again', 80, dict(names=.35, vomm=1, apps=5, steps=55, cycle=(2, 4, 5), pct=[100], w=W(swap=3, start=6, stop=6, term=.5, usr2=.6))),
                ('routine', 40, dict(vomm=.85, apps=4, steps=60, cycle=(2, 4), pct=[50, 100], autosave=(9, 3600), w=W(swap=2, start=6, stop=6, term=.7, usr2=.8, rmfile=.4, mkfile=.4, reconf=.5, fault=.3))),
                ('preset', 40, dict(preset=1, vomm=.9, apps=5, steps=30, pct=[100], w=W(swap=3, start=5, stop=5, term=.4, usr2=.4)))]),
 'P22': dict(f={'dump', 'confdump', 'rescored', 'prefetch', 'stray', 'alive', 'nodisk', 'saved'}, fs=MODEL | {'conf', 'scanned'}, d=[d_dumps],
             h=[('told', 60, dict(names=.35, prefix=.6, pct=[-200, -1, 0, 33, 100], steps=35, minsize=(0, 9000, 30000, -7), doscan=.85, dopredict=.85, autosave=(3, 7, 3600), w=W(usr1=4, reconf=1.5, hup=.3, usr2=.7, swap=2, term=.5, rmfile=.4, mkfile=.4, more=1, dying=.4))),
                ('mix', 30, dict(MIX, apps=5, steps=40, prefix=.4)), ('debug', 12, dict(MIX, args=['-V', '9'], steps=30)), ('edge', 12, dict(MIX, args=['--verbose=5'], steps=25)), ('quiet', 8, dict(MIX, args=['-V', '0'], steps=25)),
                ('preset', 40, dict(preset=1, apps=5, steps=30, minsize=(1, 9000, 30000), w=W(usr1=4, swap=2, usr2=.5, rmfile=.6, mkfile=.6, term=.4, burst=.4, reconf=.5)))]),
 'P23': dict(f=SAVE | {'private', 'diverted', 'stray', 'cmd.loose', 'alive', 'exitcode'}, d=[d_plant, d_cmd2],
             h=[('planted', 60, dict(stalekinds='rrlhd', steps=30, autosave=(3, 7, 3600), w=W(stale=3, usr2=3, term=.7, fault=.7, crash=.4, swap=2, rot=.5))),
                ('mix', 30, dict(MIX, apps=5, steps=40, stalekinds='rrlh'))]),
 'P24': dict(f=BOOT | SAVE | {'alive', 'dirty', 'fds'}, fl=MODEL, d=[d_reads],
             h=[('again', 40, dict(rdfault=.7, steps=30, autosave=(3, 9, 3600), w=W(term=3, usr2=1, crash=.5, swap=2, rmfile=.3, mkfile=.3, fault=.5))),
                ('preset', 30, dict(preset=1, apps=5, rdfault=.7, steps=25, w=W(term=3, usr2=1, swap=2, fault=.3)))]),
 'P19': dict(f=CMD | STRUCT | SERVE | {'known', 'run', 'etime', 'chains', 'chist', 'nodes', 'scores', 'select', 'requests', 'time'} | SAVE, d=[d_cmd],
             h=[('quiet', 20, dict(MIX, args=['-V', '0'], steps=30)), ('loud', 20, dict(MIX, args=['-V', '10'], steps=30)), ('nice', 10, dict(MIX, args=['-n', '3', '--verbose=2'], steps=30))]),
}
