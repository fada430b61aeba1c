"""Random histories of the daemon's environment, with knobs per property.

A generator only chooses inputs: processes, files, power, memory, configuration, signals, faults,
restarts.  It predicts nothing; the specification judges what the daemon did.
"""
import random, zlib
from vlib import *
import recs

def wchoice(rng, w):
    ks = [k for k in w if w[k] > 0]
    return rng.choices(ks, [w[k] for k in ks])[0]

ODD = [b' ', b'%', b'#', b'?', b'\xc3\xa9', b'\xff', b'"', b"'", b'\\', b'\t', b';', b'&', b'+', b'*', b'(', b'~', b'!', b'\x01', b'\x7f', b'=', b'[', b',', b':', b'|', b'-', b'..', b'@', b'%41', b'$']

BASE = dict(
    apps=4, libs=3, regs=3, steps=40, unit=1,
    odd=0.0, long=0.0,
    vomm=0.5, cycle=(2, 3, 4, 5, 20), autosave=(3600,), minsize=(1000,), corr=0.7,
    doscan=0.97, dopredict=0.95, maxprocs=(0, 1, 2, 30), sort=(0, 1, 2, 3),
    pct=None,            # list of percentages for the memory settings
    prefix=0.0,          # probability of prefix lists
    overlap=0.0,         # overlapping / nested regions
    invalid=0.25,        # share of bad configurations at a reload
    names=0.0,           # histories whose files have names that are easily taken for one another
    kinds='n', initfiles=1.0, args=(), mem=0.0, preset=0.0, stalekinds='r', rdfault=0.0,
    libkinds=0.0, between=0.0, blk=0.6, oddmaps=0.0, oddlen=0.0,
    far=0.0,             # regions far into a file, or very long ones (with unit 4096)
    w=dict(adv=10, start=4, stop=3, dying=0, more=1, rmfile=0, mkfile=0, kind=0, deleted=0, prelink=0, thread=0, selfp=0,
           usr1=0, usr2=0.4, hup=0, reconf=0, bat=0, mem=0, fault=0, crash=0, term=0.3, burst=0, sigat=0, forkfail=0, ra=0, rot=0, stale=0, swap=0, weird=0, sigchld=0),
)

ERRNO = [5, 28, 13, 122, 30, 1, 4, 16, 18, 23, 27, 40, 116]     # what a call of a save may fail with; an interrupted write is done again
def r_(r, p): return p > 0 and r.random() < p
class Gen:
    def __init__(s, rng, sid, **kw):
        k = {**BASE, **{x: y for x, y in kw.items() if x != 'w'}}
        k['w'] = {**BASE['w'], **kw.get('w', {})}
        s.k, s.r = k, rng
        s.sc = Scn(sid, unit=k['unit'], args=k['args'], laws=kw.get('laws', True))
        s.pid = [10, 10, 10, 90, 990, 9990, 32760, 99990, 999990, 4190000][zlib.crc32(str(sid).encode()) % 10]     # of any number of digits
        s.u = k['unit'] if k['unit'] > 1 else 4096

    # -- names
    def name(s, d, i):
        r = s.r
        n = b'/' + d + b'/' + b'%s%d' % (d[:1], i)
        if r.random() < s.k['odd']:
            for _ in range(r.randint(1, 4)):
                p = r.randint(1, len(n)); n = n[:p] + r.choice(ODD) + n[p:]
        if r.random() < s.k['long']:
            n = n + b'/' + b'x' * (r.choice([200, 254, 255, 256, 400, 490, 511, 512, 513, 600]) - len(n) - 1)
        return n.replace(b'\n', b'')
    def alike(s, n, d=b''):
        r = s.r; x = r.randint(0, 4)
        if x == 0: l = [p + b'/app' for p in (b'/bin', b'/opt', b'/usr/bin', b'/opt/bin', b'/b', b'/bin/bin', b'', b'/app')]
        elif x == 1: l = [b'/bin/a', b'/bin/ab', b'/bin/abc', b'/bin/a/b', b'/bin/a b', b'/bin/', b'/bin/b', b'/bin']; l.remove(b'/bin/')
        elif x == 2: l = [b'/bin/app', b'/bin/App', b'/bin/APP', b'/Bin/app', b'/bin/apP', b'/BIN/APP', b'/bin/aPp']
        elif x == 3:
            k = b'/opt/' + b'y' * (r.choice([15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 300, 480]) - 5)
            l = [k + c for c in (b'', b'1', b'2', b'12', b'3', b'21', b'a')]
        else: l = [b'/1', b'/12', b'/2', b'/-1', b'/0', b'/%31', b'/01']
        r.shuffle(l)
        return [d + p for p in l[:n]]
    def region(s, f):
        r, u = s.r, s.u
        if r.random() < s.k['far']:
            G = 1 << 30
            return (f, r.choice([0, 1, 2, 16, 17, 4 * G // u, 4 * G // u + 16, 2 * G // u, 8 * G // u, 1024 * G // u, 4 * G // u - 1]) * u, r.choice([1, 2, 3, 16, 4 * G // u, 4 * G // u + 1, 2 * G // u, 2 * G // u - 1]) * u)
        if r.random() < s.k['oddlen']:
            return (f, r.choice([0, 0, 1, 2, 5]) * u + (r.choice([1, 100, 2048, 4095]) if u == 4096 and r.random() < .3 else 0), r.choice([1, 100, 1000, 1023, 1024, 1025, 2048, 4095, 4097, 5000]))
        if r.random() < s.k['overlap']:
            return (f, r.randint(0, 6) * u, r.randint(1, 5) * u)
        j = r.randint(0, 3)
        return (f, j * 16 * u, r.choice([1, 2, 3, 16]) * u)
    def setup(s):
        r, k, sc = s.r, s.k, s.sc
        s.exes = [s.name(r.choice([b'bin', b'opt', b'sbin']), i) for i in range(k['apps'])]
        s.exes = list(dict.fromkeys(s.exes))
        s.libs = list(dict.fromkeys([s.name(r.choice([b'lib', b'usr']), i) for i in range(k['libs'])]))
        if k['names'] and r.random() < k['names']:
            s.exes = s.alike(k['apps']); s.libs = s.alike(k['libs'], b'/lib') if r.random() < .7 else s.exes[:1] + s.libs[1:]
        s.app = {}
        shared = [s.region(r.choice(s.libs)) for _ in range(k['libs'] * 2)] if s.libs else []
        for e in s.exes:
            rs = [s.region(e) for _ in range(r.randint(1, 2))]
            for _ in range(r.randint(0, k['regs'])):
                if shared and r.random() < 0.7: rs.append(r.choice(shared))
                elif s.libs: rs.append(s.region(r.choice(s.libs)))
            s.app[e] = rs
        for f in s.exes + s.libs:
            if r.random() < k['initfiles']: s.mkfile(f)
        s.newconf(False)
        if r.random() < k['mem']: s.newmem()
        if r.random() < 0.3: s.act_start()
        if r.random() < k['preset']:
            rs = recs.content_for(r, s.app, k['unit'])
            sc.segs[0]['state'] = ('recs', [x for x, _ in rs], recs.to_bytes(r, rs))
    def mkfile(s, f, kind='r'):
        r = s.r; kw = {}
        if r.random() < s.k['blk']: kw['blk'] = r.choice([-1, 1000, 5000, 20, r.randint(1, 3000)])
        if f in s.libs and r.random() < s.k['libkinds']:
            x = r.choice(['noopen', 'rafail', 'nomap', 'gone'])
            if x == 'noopen': kw['noopen'] = 1
            elif x == 'rafail': kw['rafail'] = r.choice([22, 38, 95, 5, 9])
            elif x == 'nomap': kw['rafail'] = r.choice([22, 38]); kw['nomap'] = r.choice([1, 2])
            else: kind = r.choice('nedst')
        s.sc.file(f, kind, **kw)

    # -- configuration
    def confkw(s):
        r, k = s.r, s.k
        c = dict(cycle=r.choice(k['cycle']), minsize=r.choice(k['minsize']), autosave=r.choice(k['autosave']),
                 usecorrelation=r.random() < k['corr'], doscan=r.random() < k['doscan'], dopredict=r.random() < k['dopredict'],
                 maxprocs=r.choice(k['maxprocs']), sortstrategy=r.choice(k['sort']),
                 prediction_algorithm='VOMM' if r.random() < k['vomm'] else 'MARKOV')
        if k['pct']:
            for x in ('memtotal', 'memfree', 'memcached', 'membuffers'): c[x] = r.choice(k['pct'])
        else: c['memtotal'], c['memfree'] = 0, 100
        if r.random() < k['prefix']: c['exeprefix'] = s.prefixes(s.exes)
        if r.random() < k['prefix']: c['mapprefix'] = s.prefixes(s.exes + s.libs)
        return c
    def prefixes(s, paths):
        r = s.r; out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if r.random() < .9 else r.randint(5, 40)):
            p = r.choice(paths) if r.random() < 0.9 else r.choice([b'/', b'', b'x', b'/nowhere'])
            q = p[:r.choice([0, 1, 2, 4, 5, 6, len(p) - 1, len(p)])] if p else p
            if r.random() < 0.1: q = p + b'x'
            if r.random() < 0.08: q = q.swapcase()
            if b'\n' in q or b'\r' in q or not safe_utf8(q) or any(c < 32 for c in q) or q.strip() != q: q = b'/bin'
            if r.random() < 0.45: q = b'!' + q
            out.append(q.decode('latin-1'))
        return out
    def newconf(s, maybe_bad=True):
        r = s.r
        c = s.confkw()
        if maybe_bad and r.random() < 0.3:
            for x in list(c):
                if r.random() < 0.5: del c[x]
        d, t = mkconf(**c)
        if maybe_bad and r.random() < s.k['invalid']:
            x = r.randint(0, 3)
            if x == 0: s.sc.conf(dict(st='missing'), None); return
            if x == 1: s.sc.conf(dict(st='malformed'), r.choice(['[model\n' + t, 'cycle=3\n' + t, t + 'what is this\n', t + '[]\n'])); return
            if x == 2:
                g, kk, v = r.choice([('model', 'cycle', 'x'), ('model', 'minsize', '1.5'), ('system', 'autosave', '12q'), ('system', 'doscan', 'maybe'), ('model', 'usecorrelation', ''), ('system', 'maxprocs', '99999999999999')])
                d['kv'].append(dict(g=g, k=kk, ok=False, v=0)); t += '[%s]\n%s=%s\n' % (g, kk, v)
            else:
                d['kv'].append(dict(g='other', k='cycle', ok=True, v=3)); t += '[other]\ncycle=3\n'
                d['kv'].append(dict(g='system', k='nosuch', ok=True, v='x')); t += '[system]\nnosuch=x\n'
        s.sc.conf(d, t)
    def newmem(s):
        r = s.r
        big = s.k['unit'] > 1
        def v(): return r.choice([0, 1, 50, 99, 100, 1000, r.randint(0, 4000), r.randint(0, 400000) if big else r.randint(0, 300), 40000])
        s.sc.mem(total=v() * r.choice([1, 10]), free=v(), avail=r.choice([-1, -1, v(), v(), v()]), cached=v(), buffers=v())

    # -- actions
    def maps_of(s, e):
        r = s.r; out = []
        for f, o, l in s.app[e]: out.append(Map(f, o, l, r.choice(['r-xp', 'r--p', 'rw-p', 'r--s'])))
        if r.random() < 0.3: out.append(Map(r.choice([b'', b'[heap]', b'[stack]', b'[vdso]', b'anon_inode:[x]', b'//anon', b'socket:[1]']), 0, s.u * r.randint(1, 3)))
        if r.random() < s.k['oddmaps']:
            f, o, l = r.choice(s.app[e])
            out.append(Map(f + r.choice([b' (deleted)', b'.#prelink#.aB1', b'.#prelink#.x (deleted)']), o + 32 * s.u, l))
        r.shuffle(out)
        return out
    def running(s): return sorted(s.sc.procs)
    def act_start(s, e=None, exe=None, pid=None):
        e = e or s.r.choice(s.exes)
        if pid is None:
            s.pid += s.r.choice([1, 1, 1, 7]); pid = s.pid
            if s.r.random() < 0.1: pid = s.r.randint(2, 9)
            while pid in s.sc.procs: pid += 1
        then = None
        if r_(s.r, s.k['between']):      # ends, or maps something else, between the two readings
            then = [] if s.r.random() < .4 else s.r.choice([s.maps_of(s.r.choice(s.exes)), s.maps_of(e)[:1], s.maps_of(e) + s.maps_of(s.r.choice(s.exes))])
        s.sc.proc(pid, exe if exe is not None else e, s.maps_of(e), then=then)
        return pid
    def act_more(s):
        e = s.r.choice(s.exes)
        for _ in range(s.r.randint(2, 3)): s.act_start(e)
    def act_stop(s):
        if s.sc.procs:
            p = s.r.choice(s.running()); exe = s.sc.procs[p]['exe']; s.sc.kill(p)
            if s.r.random() < 0.5:
                for q in s.running():
                    if s.sc.procs[q]['exe'] == exe: s.sc.kill(q)
    def act_swap(s):          # several change at once
        for _ in range(s.r.randint(1, 2)): s.act_stop()
        for _ in range(s.r.randint(1, 2)): s.act_start()
    def act_dying(s):
        if s.sc.procs: s.sc.dying(s.r.choice(s.running()))
    def act_rmfile(s):
        s.sc.file(s.r.choice(s.exes), s.r.choice(s.k['kinds']))
    def act_mkfile(s): s.mkfile(s.r.choice(s.exes + s.libs))
    def act_kind(s): s.sc.file(s.r.choice(s.exes), s.r.choice('rrrrnndsteolibvm'))
    def act_deleted(s): e = s.r.choice(s.exes); s.act_start(e, exe=e + s.r.choice([b' (deleted)', b'(deleted)']))
    def act_prelink(s): e = s.r.choice(s.exes); s.act_start(e, exe=e + b'.#prelink#.' + s.r.choice([b'abc', b'', b'x (deleted)']))
    def act_thread(s): s.act_start(exe=s.r.choice(['-', '+']))
    def act_selfp(s): s.act_start(pid=4242)
    def act_weird(s): s.act_start(exe=s.r.choice([b'bin/x', b'x' * 3, b'/' + b'y' * s.r.choice([510, 511, 599]), b'', b'/']) or b'q')
    def act_adv(s): s.sc.adv(s.r.choice([1, 1, 1, 2, 3, 4]))
    def act_usr1(s): s.sc.sig('USR1')
    def act_usr2(s): s.sc.sig('USR2')
    def act_hup(s): s.sc.sig('HUP')
    def act_rot(s): s.sc.rotlog(); s.sc.sig('HUP')
    def act_reconf(s):
        s.newconf()
        if s.r.random() < 0.85: s.sc.sig('HUP')
    def act_bat(s):
        r = s.r
        k = r.randint(0, 9) if r.random() < 0.3 else r.randint(0, 1)
        s.sc.bat(k, r.choice([None, 'Discharging\n', 'Discharging\n', 'Discharging', 'Charging\n', 'Full\n', 'Unknown\n', 'Not charging\n', '', '\n', ' Discharging \n', 'discharging\n', 'Discharging2\n', 'Dis']))
    def act_mem(s): s.newmem()
    def act_late(s):
        r = s.r; s.sc.late(r.choice([0, 1, 2, 3, 5, 9, 30, 4000, 100000]))
        if r.random() < .35: s.sc.sigs(*[r.choice(['HUP', 'USR1', 'USR2']) for _ in range(r.choice([1, 1, 2]))])
        s.sc.adv(r.choice([1, 2]))
    def act_burst(s): s.sc.sigs(*[s.r.choice(['HUP', 'USR1', 'USR2', 'USR2', 'PIPE', 'USR1']) for _ in range(s.r.randint(2, 4))])
    def act_sigat(s):
        s.sc.sigat(s.r.randint(1, 60), s.r.choice(['HUP', 'USR1', 'USR2', 'USR1', 'TERM'] if s.r.random() < 0.15 else ['HUP', 'USR1', 'USR2'])); s.sc.adv(1)
    def act_forkfail(s): s.sc.forkfail(s.r.choice([0, 1, 2, 3, 5])); s.sc.adv(2)
    def act_sigchld(s): s.sc.sigchld()
    def act_ra(s):
        s.mkfile(s.r.choice(s.libs or s.exes))
    def act_stale(s):
        r, k = s.r, s.k['stalekinds']
        if len(k) > 1 and r.random() < .5:
            s.sc.staletmp(r.choice('rrlh')); s.sc.staletmp(r.choice(k), r.choice([1, 2, 2]))
        else: s.sc.staletmp(r.choice(k))
    def fault(s):
        r = s.r
        k = r.choice(['any', 'any', 'open', 'write', 'sync', 'close', 'rename', 'unlink', 'trunc'])
        a = r.choice(['e', 'e', 'e', 's'])
        s.sc.fault(k, r.randint(1, 7) if k == 'any' else r.randint(1, 2), a, r.choice(ERRNO) if a == 'e' else r.randint(1, 60), r.choice([1, 1, 2, 9]))
    def act_fault(s):
        s.fault(); s.sc.sig('USR2')
        if s.r.random() < 0.7: s.sc.nofault()
    def act_crash(s):
        r = s.r
        s.sc.fault(r.choice(['any', 'any', 'any', 'write', 'rename']), r.randint(1, 7), 'c', r.choice([0, 0, 10, 100, 300]))
        s.sc.sig('USR2')
        # what follows belongs to the next life; if the save did no such call this life goes on
        s.sc.nofault()
        s.sc.sig('TERM')
        s.restart()
    def act_term(s):
        s.sc.sig(s.r.choice(['TERM', 'TERM', 'INT', 'QUIT']))
        s.restart()
    def restart(s):
        r = s.r
        s.sc.restart(None)
        if r.random() < 0.3: s.newconf(False)
        # things change while it is down
        for _ in range(r.randint(0, 2)): r.choice([s.act_start, s.act_stop])()
        if s.k['rdfault'] and r.random() < s.k['rdfault']:
            x = r.random()
            if x < .2: s.sc.fault('ropen', 1, 'e', r.choice([13, 13, 5, 24]), 1)
            elif x < .5: s.sc.fault('read', 1, 's', r.choice([1, 2, 7, 100, 1000]), 100000)
            else:
                for q in range(1, r.randint(2, 6)):
                    y = r.random()
                    if y < .4: s.sc.fault('read', q, 's', r.choice([1, 5, 40, 200, 1000]), 1)
                    elif y < .6: s.sc.fault('read', q, 'e', 4, 1)
                    elif y < .8: s.sc.fault('read', q, 'e', 5, 1)
            s.sc.begin(); s.sc.adv(1); s.sc.nofault(); s.sc.adv(1)
            if r.random() < .5: s.sc.sig('USR2')
            s.sc.restart(None)
        s.sc.begin()
    def history(s):
        s.setup()
        s.sc.begin()
        for _ in range(s.k['steps']):
            getattr(s, 'act_' + wchoice(s.r, s.k['w']))()
        s.sc.adv(3)
        if s.r.random() < 0.7: s.sc.sig('TERM')
        return s.sc

def safe_utf8(b):
    try: b.decode('utf-8'); return True
    except UnicodeDecodeError: return False
