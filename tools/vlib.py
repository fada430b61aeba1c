"""Scenarios, the harness that runs them on the real daemon, and recorded traces as TLC input.

Nothing here decides anything: a scenario is rendered into a harness script, the lines the harness
records are re-encoded (byte strings with %XX, seq numbers replaced by names, real numbers by
integers), and the specification (spec/Trace.tla) judges them.
"""
import json, math, os, re, shutil, signal, subprocess, sys, tempfile, random
from concurrent.futures import ThreadPoolExecutor
from urllib.parse import quote_from_bytes, unquote_to_bytes

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAFE = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/._-()#!+,=@:;~")
SAT = 2000000000
INT_MAX = 2147483647
SIG = {1: 'HUP', 10: 'USR1', 12: 'USR2', 15: 'TERM', 2: 'INT', 3: 'QUIT', 13: 'PIPE'}

def B(s):
    return s if isinstance(s, bytes) else s.encode('latin-1')

def enc(s):
    return ''.join(chr(c) if c in SAFE else '%%%02X' % c for c in B(s))

def senc(s):
    """encoding for script arguments"""
    return ''.join(chr(c) if c in SAFE and c != 37 else '%%%02X' % c for c in B(s)) or '%'

def sat(x):
    return max(-SAT, min(SAT, int(x)))

# ---------------------------------------------------------------- scenarios

class File:
    def __init__(s, kind='r', ino=1, blk=0, noopen=0, rafail=0, nomap=0):
        if kind in 'ds': rafail, nomap, blk = 22, 1, -1       # neither read ahead nor mapped
        s.kind, s.ino, s.blk, s.noopen, s.rafail, s.nomap = kind, ino, blk, noopen, rafail, nomap

class Map:
    """a line of a memory map; name is what the kernel shows"""
    def __init__(s, name, off=0, length=4096, perm='r-xp', raw=None):
        s.name, s.off, s.length, s.perm, s.raw = name, off, length, perm, raw

class Scn:
    """A scenario: commands grouped in segments (one daemon run each)."""
    def __init__(s, sid, unit=1, light=False, laws=True, args=(), noconf=False):
        s.id, s.unit, s.light, s.laws, s.args = sid, unit, light, laws, list(args)
        s.noconf = noconf
        s.procs, s.files, s.bats, s.memv = {}, {}, {}, dict(total=8000000, free=2000000, avail=4000000, cached=1000000, buffers=100000)
        s.confst = dict(st='none') if noconf else dict(st='missing')
        s.conftext = None
        s.segs = []          # [{script:[...], envs:[...], state:..., nsig:[...]}]
        s.cur = None
        s.tags = {}
        s.next_ino = 100
        s.addr = 0x400000
        s.vmstat = 'pgpgin 100\npgpgout 100\n'
        s.memtext = None
        s.steady = []
        s.newseg(None)

    # -- segments
    def newseg(s, state):
        """state: None (what is there), ('recs', records, bytes) or ('bytes', bytes)"""
        s.cur = dict(pre=[], script=[], envs=[], nsig=[], state=state, began=False, flags=[], pend=dict(rot=False, stale=False))
        s.segs.append(s.cur)
        return s
    restart = newseg

    def _env(s):
        return dict(procs={p: dict(v, maps=list(v['maps'])) for p, v in s.procs.items()},
                    files={p: f.__dict__.copy() for p, f in s.files.items()},
                    bat=[s.bats[k] for k in sorted(s.bats) if s.bats[k] is not None and k < 10],
                    mem=dict(s.memv), conf=json.loads(json.dumps(s.confst)))

    def _cmd(s, c):
        (s.cur['script'] if s.cur['began'] else s.cur['pre']).append(c)

    # -- world
    def proc(s, pid, exe, maps=(), then=None):
        """exe: bytes/str path, or '-' (unreadable), '+' (no such link); then: the mappings
        that a second reading finds right after the first (none: it has ended)"""
        s.procs[pid] = dict(exe=exe, maps=list(maps), dying=False, then=None if then is None else list(then))
        s._proc_cmds(pid)
        return s
    def _proc_cmds(s, pid):
        p = s.procs[pid]
        s._cmd('proc %d %s' % (pid, p['exe'] if p['exe'] in ('-', '+') else senc(p['exe'])))
        for cmd, maps in (('pm', p['maps']), ('then', p.get('then') or [])):
            a = s.addr
            for m in maps:
                if m.raw is not None:
                    s._cmd('%s %d %s' % (cmd, pid, senc(m.raw)))
                else:
                    ln = b'%08x-%08x %s %08x %02x:%02x %d' % (a, a + m.length, B(m.perm), m.off, 8, 1, 77)
                    if m.name:
                        ln = ln.ljust(73) + B(m.name)
                    s._cmd('%s %d %s' % (cmd, pid, senc(ln)))
                    a += m.length + 4096
        if p.get('then') == []: s._cmd('then %d' % pid)
        if p['dying']:
            s._cmd('dying %d' % pid)
    def kill(s, pid):
        s.procs.pop(pid, None); s._cmd('kill %d' % pid); return s
    def dying(s, pid):
        s.procs[pid]['dying'] = True; s._cmd('dying %d' % pid); return s
    def file(s, path, kind='r', ino=None, **kw):
        if ino is None:
            ino = s.files[path].ino if path in s.files else s.next_ino
            s.next_ino += 1
        f = s.files[path] = File(kind, ino, **kw)
        s._file_cmd(path); return s
    def _file_cmd(s, path):
        f = s.files[path]
        s._cmd('file %s %s %d %d %d %d %d' % (senc(path), f.kind, f.ino, f.blk, f.noopen, f.rafail, f.nomap))
    def bat(s, k, status):
        s.bats[k] = status; s._cmd('bat %d %s' % (k, '-' if status is None else senc(status))); return s
    def mem(s, **kw):
        s.memv = dict(s.memv, **kw); s.memtext = None; s._mem_cmd(); return s
    def _mem_cmd(s):
        m = s.memv
        if m.get('none'):
            s._cmd('mem -'); return
        # as kernels of different ages write it
        style = (m['total'] + 3 * m['free'] + 5 * m['cached'] + 7 * m['buffers']) % 4
        if style:
            f = [('MemTotal', m['total']), ('MemFree', m['free'])] + ([('MemAvailable', m['avail'])] if m['avail'] >= 0 else []) + [('Buffers', m['buffers']), ('Cached', m['cached'])]
            if style > 1: f += [(n, 17 + 9 * i) for i, n in enumerate('SwapCached Active Inactive Active(anon) Inactive(anon) Active(file) Inactive(file) Unevictable Mlocked HighTotal HighFree LowTotal LowFree SwapTotal SwapFree Zswap Zswapped Dirty Writeback AnonPages Mapped Shmem KReclaimable Slab SReclaimable SUnreclaim KernelStack PageTables SecPageTables NFS_Unstable Bounce WritebackTmp CommitLimit Committed_AS VmallocTotal VmallocUsed VmallocChunk Percpu HardwareCorrupted AnonHugePages ShmemHugePages ShmemPmdMapped FileHugePages FilePmdMapped CmaTotal CmaFree Unaccepted'.split())]
            if style > 2: f += [('DirectMap%dk' % i, 1 << i) for i in range(120)]
            t = ''.join(('%-15s %8d kB\n' % (n + ':', v)) if style > 1 else '%s: %d kB\n' % (n, v) for n, v in f)
            s._cmd('mem ' + senc(t))
            return
        t = 'MemTotal:       %d kB\nMemFree:        %d kB\n' % (m['total'], m['free'])
        if m['avail'] >= 0:
            t += 'MemAvailable:   %d kB\n' % m['avail']
        t += 'Buffers:        %d kB\nCached:         %d kB\nSwapCached:     7 kB\nActive:   11 kB\nInactive:   12 kB\nActive(anon):  5 kB\nInactive(anon): 5 kB\nActive(file): 5 kB\nInactive(file): 5 kB\n' % (m['buffers'], m['cached'])
        s._cmd('mem ' + senc(t))
    def conf(s, st, text=None):
        """st: see spec/Conf.tla; text None removes the file"""
        s.confst, s.conftext = st, text
        s._cmd('conf ' + ('-' if text is None else senc(text))); return s
    def rotlog(s):
        s.cur['pend']['rot'] = True; s._cmd('rotlog'); return s
    def staletmp(s, kind='r', after=0):
        """something at the temporary's name: r a file, l a link to another file, h a hard link to it, d a directory;
        after: put there when a save has done that many operations on names"""
        s.cur['pend']['stale'] = True; s._cmd('staletmp %s %d' % (kind, after)); return s
    def fault(s, kind, nth, act, arg=0, cnt=1):
        s._cmd('fault %s %d %s %d %d' % (kind, nth, act, arg, cnt)); return s
    def nofault(s):
        s._cmd('nofault'); return s
    def forkfail(s, n):
        s._cmd('forkfail %d' % n); return s
    def sigat(s, n, sig):
        s._cmd('sigat %d %s' % (n, sig)); return s
    def sigchld(s):
        s._cmd('sigchld'); return s
    # -- letting the daemon go on
    def begin(s):
        """start the daemon of this segment"""
        c = s.cur
        if c['began']:
            return s
        body = []
        c['pre'], keep = body, c['pre']
        for p in s.files: s._file_cmd(p)
        for p in s.procs: s._proc_cmds(p)
        for k, v in s.bats.items():
            s._cmd('bat %d %s' % (k, '-' if v is None else senc(v)))
        s._mem_cmd()
        s._cmd('vmstat ' + senc(s.vmstat))
        if not s.noconf:
            s._cmd('conf ' + ('-' if s.conftext is None else senc(s.conftext)))
        c['pre'] = body + [k for k in keep if k.split()[0] in ('fault', 'nofault', 'staletmp', 'sigat', 'sigchld', 'forkfail')]
        c['began'] = True
        c['env0'] = s._env(); c['flag0'] = c['pend']; c['pend'] = dict(rot=False, stale=False)
        return s
    def _yield(s, cmd, n, steady=0):
        s.begin()
        c = s.cur
        c['script'].append(cmd)
        c['envs'].append(s._env()); c['nsig'].append(n); c['flags'].append(dict(c['pend'], steady=steady))
        c['pend'] = dict(rot=False, stale=False)
        return s
    def late(s, secs):
        """the next step comes so many seconds after its time"""
        s._cmd('late %d' % secs); return s
    def adv(s, n=1, steady=0):
        for _ in range(n): s._yield('adv', 0, steady)
        return s
    def sig(s, name, steady=0):
        return s._yield('sig ' + name, 1, steady)
    def sigs(s, *names):
        return s._yield('sigs ' + ' '.join(names), len(names)) if len(names) > 1 else s.sig(names[0])

def conf_text(groups):
    """groups: list of (group, [(key, text)])"""
    return ''.join('[%s]\n%s' % (g, ''.join('%s=%s\n' % kv for kv in kvs)) for g, kvs in groups)

INTK = {'cycle', 'minsize', 'memtotal', 'memfree', 'memcached', 'membuffers', 'autosave', 'maxprocs', 'processes', 'sortstrategy'}
BOOLK = {'usecorrelation', 'doscan', 'dopredict'}
LISTK = {'mapprefix', 'exeprefix'}
MODELK = {'cycle', 'usecorrelation', 'minsize', 'memtotal', 'memfree', 'memcached', 'membuffers'}

def mkconf(**kw):
    """a valid configuration file from keywords -> (description for the spec, text)"""
    kv, m, y = [], [], []
    for k, v in kw.items():
        g = 'model' if k in MODELK else 'system'
        if k in BOOLK: t, x = ('true' if v else 'false'), int(bool(v))
        elif k in LISTK: t, x = ''.join(e.replace('\\', '\\\\').replace(';', '\\;') + ';' for e in v), [enc(e) for e in v]
        elif k == 'prediction_algorithm': t, x = v, enc(v)
        else: t, x = str(v), sat(v)
        (m if g == 'model' else y).append((k, t))
        kv.append(dict(g=g, k=k, ok=True, v=x))
    return dict(st='ok', kv=kv), conf_text([('model', m), ('system', y)])

# ---------------------------------------------------------------- running

class Runner:
    def __init__(s, hdir, work):
        s.h, s.work = os.path.join(hdir, 'h'), work
    def run(s, sc, keep=None):
        if hasattr(sc, 'argv'): import cmdline; return cmdline.run(s.h, s.work, sc)
        d = tempfile.mkdtemp(dir=s.work)
        try:
            os.mkdir(d + '/st')
            out = []
            for seg in sc.segs:
                if not seg['began']:
                    sc.cur = seg; sc.begin()
                if seg['state'] is not None:
                    data = seg['state'][-1]
                    if data is None:
                        if os.path.exists(d + '/st/state'): os.unlink(d + '/st/state')
                    else:
                        open(d + '/st/state', 'wb').write(data)
                before = rd(d + '/st/state')
                open(d + '/script', 'w').write('\n'.join(seg['pre'] + ['go'] + seg['script']) + '\n')
                if os.path.exists(d + '/trace'): os.unlink(d + '/trace')
                env = dict(os.environ, H_SCR=d)
                if sc.noconf: env['H_NOCONF'] = '1'
                try:
                    p = subprocess.Popen([s.h, d + '/script', d + '/trace'] + sc.args, env=env, stdin=subprocess.DEVNULL, cwd=d,
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
                    t, _ = p.communicate(timeout=100)
                    rc = p.returncode; txt = t.decode('latin-1')
                except subprocess.TimeoutExpired:
                    try: os.killpg(p.pid, signal.SIGKILL)        # with all that it started
                    except OSError: pass
                    p.wait(); p.stdout.close()
                    rc = -99; txt = ''
                lines = []
                for l in (rd(d + '/trace') or b'').decode('latin-1').split('\n'):
                    if l:
                        try: lines.append(json.loads(l))
                        except ValueError: lines.append(dict(k='hang', why='garbled'))
                log = ''
                if rc in (95,) or rc < 0:
                    log = '\n'.join((rd(d + '/' + f) or b'').decode('latin-1')[-3000:] for f in os.listdir(d) if f.startswith('log'))
                out.append(dict(rc=rc, lines=lines, before=before, after=rd(d + '/st/state'), mode=[fmode(d + '/st/state'), fmode(d + '/log')],
                                vic=int(rd(d + '/victim') in (None, b'precious\n')), dir=sorted(os.listdir(d + '/st')), txt=txt[-3000:] + log[-3000:]))
            if keep:
                shutil.rmtree(keep, ignore_errors=True); shutil.copytree(d, keep)
            return out
        finally:
            shutil.rmtree(d, ignore_errors=True)
    def run_all(s, scs, par=8):
        with ThreadPoolExecutor(par) as ex:
            return list(ex.map(s.run, scs))

def rd(p):
    try: return open(p, 'rb').read()
    except OSError: return None

def fmode(p):
    try: return os.stat(p).st_mode & 0o7777
    except OSError: return -1

# ---------------------------------------------------------------- state files

def ttl_sum(ttl, w):
    if w == 0: return 0
    try: return sat(round(100 * float(ttl) * w))
    except (ValueError, OverflowError): return SAT

def lex_state(data, unit):
    """the records of a state file, for StateFile!Read"""
    recs = []
    def i_(x):
        if not re.fullmatch(r'[-+]?\d+', x): raise ValueError(x)
        return int(x)
    def uri(u):
        if not u.startswith('file:///'): raise ValueError(u)
        return unquote_to_bytes(u[7:])
    text = data.decode('latin-1')
    if text.endswith('\n'): text = text[:-1]
    elif text == '': return recs
    for l in text.split('\n'):
        f = l.split()
        if not f:
            recs.append(dict(tag='BLANK')); continue
        t, a = f[0], f[1:]
        try:
            if t == 'PRELOAD':
                m = re.match(r'PRELOAD\t(\d+)\.[^\t]+\t(-?\d+)$', l)
                recs.append(dict(tag=t, ok=True, same=int(m.group(1)) == 0, time=sat(int(m.group(2)))) if m else dict(tag=t, ok=False))
            elif t == 'MAP':
                recs.append(dict(tag=t, ok=True, id=str(i_(a[0])), key=mapid(uri(a[5]), i_(a[2]), i_(a[3]), unit)[0], raw=(uri(a[5]), i_(a[2]), i_(a[3]))))
            elif t == 'EXE':
                recs.append(dict(tag=t, ok=True, id=str(i_(a[0])), p=enc(uri(a[4])), upd=sat(i_(a[1])), time=sat(i_(a[2]))))
            elif t == 'EXEMAP':
                float(a[2]); recs.append(dict(tag=t, ok=True, exe=str(i_(a[0])), map=str(i_(a[1]))))
            elif t == 'MARKOV':
                n = [i_(x) for x in a[7:23]]
                if len(n) != 16: raise ValueError
                w = [[sat(x) for x in n[4 * k:4 * k + 4]] for k in range(4)]
                recs.append(dict(tag=t, ok=True, a=str(i_(a[0])), b=str(i_(a[1])), t=sat(i_(a[2])),
                                 s=[ttl_sum(a[3 + k], w[k][k]) for k in range(4)], w=w))
            elif t == 'VOMMNODE':
                recs.append(dict(tag=t, ok=True, id=str(i_(a[0])), exe=str(i_(a[1])), n=sat(i_(a[2])), parent=str(i_(a[3]))))
            elif t == 'BADEXE': recs.append(dict(tag=t))
            elif t.startswith('#'): recs.append(dict(tag='COMMENT'))
            else: recs.append(dict(tag='OTHER'))
        except (ValueError, IndexError, OverflowError):
            recs.append(dict(tag=t, ok=False))
    return recs

def mapid(path, off, length, unit):
    o, n = off // unit, length // unit
    return '%s|%d|%d' % (enc(path), sat(o), sat(n)), o, n

# ---------------------------------------------------------------- canonical traces

class Canon:
    def __init__(s, sc):
        s.sc, s.unit = sc, getattr(sc, 'unit', 1)
        s.reg, s.paths = {}, set()
        s.tab = dict(procs=[], files=[], mem=[], bat=[], conf=[])
        s.idx = {k: {} for k in s.tab}

    def region(s, path, off, length):
        path = B(path)
        rid, o, n = mapid(path, off, length, s.unit)
        if rid not in s.reg:
            s.paths.add(path)
            s.reg[rid] = dict(p=enc(path), raw=path, off=sat(o), len=sat(n), page=sat(off // 4096), kb=sat(min((length + 1023) // 1024, INT_MAX)))
        return rid

    def put(s, kind, v):
        j = json.dumps(v, sort_keys=True)
        if j not in s.idx[kind]:
            s.tab[kind].append(v); s.idx[kind][j] = len(s.tab[kind])
        return s.idx[kind][j]

    def env(s, e):
        ps = []
        for pid in sorted(e['procs']):
            p = e['procs'][pid]
            unr = p['exe'] in ('-', '+')
            x = b'' if unr else B(p['exe'])
            def lines(ms):
                maps = []
                for m in ms:
                    if m.raw is not None: continue
                    nm = B(m.name)
                    # candidate regions, for the table of regions
                    if nm.startswith(b'/'):
                        q = nm.split(b'.#prelink#.')[0]
                        s.region(q, m.off, m.length)
                    maps.append(dict(x=enc(nm), n=len(nm), len=sat(m.length // s.unit), ol='%d|%d' % (sat(m.off // s.unit), sat(m.length // s.unit))))
                return maps
            ps.append(dict(pid=pid, unr=unr, x=enc(x), n=len(x), dying=bool(p['dying']), maps=lines(p['maps'])))
            if p.get('then') is not None: ps[-1]['then'] = lines(p['then'])
        fs = {enc(p): dict(k='o' if f['kind'] in 'olibvm' else f['kind'], ino=f['ino'], blk=f['blk'], noopen=f['noopen'], nomap=f['nomap']) for p, f in e['files'].items()}
        m = e['mem']
        mm = dict(total=0, free=0, avail=-1, cached=0, buffers=0) if m.get('none') else {k: sat(m[k]) for k in ('total', 'free', 'avail', 'cached', 'buffers')}
        return dict(procs=s.put('procs', ps), files=s.put('files', fs), mem=s.put('mem', mm),
                    bat=s.put('bat', [enc(b) for b in e['bat']]), conf=s.put('conf', e['conf']))

    # -- one recorded line
    def model(s, st):
        path = {}; ids = {}; okid = {}
        mapdup = False
        L = dict(time=sat(st['time']), lrt=sat(st['lrt']), dirty=bool(st['dirty']))
        rks = sorted({m['ln'] for m in st['maps'] if isinstance(m['ln'], (int, float))})
        rank = {v: i for i, v in enumerate(rks)}
        maps = {}
        for m in st['maps']:
            rid = s.region(m['p'], int(m['off']), int(m['len']))
            ids[m['seq']] = rid
            num = isinstance(m['ln'], (int, float))
            if rid in maps: mapdup = True
            maps[rid] = dict(ref=sat(m['ref']), ln=sat(round(m['ln'] * 1e6)) if num else 0, rk=rank[m['ln']] if num else 0,
                             neg=bool(num and m['ln'] < 0), ok=num)
        exes = {}; dang = st['badchains']
        for e in st['exes']: path[e['seq']] = enc(e['p'])
        for e in st['exes']:
            bag = {}
            for mseq, prob, intable in e['maps']:
                rid = ids.get(mseq)
                if rid is None or not intable: dang += 1; continue
                bag[rid] = bag.get(rid, 0) + 1
            num = isinstance(e['ln'], (int, float))
            if enc(e['p']) in exes or not e['key']: dang += 1
            exes[enc(e['p'])] = dict(maps=bag, time=sat(e['time']), upd=sat(e['upd']), rt=sat(e['rt']), ct=sat(e['ct']), nmk=e['nmk'], seq=sat(e['seq']),
                                     ln=sat(round(e['ln'] * 1e6)) if num else -SAT, pr=sat(round(1e6 * math.exp(min(e['ln'], 5)))) if num else 0)
        ch = []
        for c in st['chains']:
            if c['a'] not in path or c['b'] not in path: dang += 1; continue
            w = [[sat(x) for x in r] for r in c['w']]
            ch.append(dict(a=path[c['a']], b=path[c['b']], t=sat(c['t']), st=c['st'], ct=sat(c['ct']),
                           s=[ttl_sum(c['ttl'][k], w[k][k]) for k in range(4)], w=w))
        kid = {0: []}; nodes = []
        for nid, eseq, cnt, par in st['vomm']:
            k = kid.get(par, ['?']) + [path.get(eseq, '?')]
            kid[nid] = k; nodes.append(dict(k=k, n=sat(cnt)))
        cf = dict(st['conf']); cf.pop('vomm', None)
        cf['mapprefix'] = [enc(x) for x in (cf['mapprefix'] or [])]
        cf['exeprefix'] = [enc(x) for x in (cf['exeprefix'] or [])]
        cf['algo'] = enc(cf['algo'] or '')
        for k in cf:
            if isinstance(cf[k], int): cf[k] = sat(cf[k])
        L.update(exes=exes, chains=ch, bad={enc(p): sat(z // s.unit) for p, z in st['bad']}, rlist=[path.get(q, '?') for q in st['running']],
                 nodes=nodes, conf=cf, maps=maps, arr=st['arr'], mapdup=mapdup, dangling=dang)
        s.ids = ids
        return L

    def events(s, evs, nsig, ids):
        r = dict(sig=[], att=[], scans=0, rc=[], deny=0, rf='')
        att = None; cur = None; last = {}
        def flush():
            nonlocal att
            if att: r['att'].append(att)
            att = None
        for e in evs:
            k = e[0]
            if k == 'sig':
                r['sig'].append(dict(s=SIG.get(e[1], '?'), mid=len(r['sig']) >= nsig))
            elif k == 'scan': r['scans'] += 1
            elif k == 'deny': r['deny'] += 1
            elif k == 'rd':
                if e[2] != 4: r['rf'] = 'unread' if e[1] == 'read' else 'denied' if e[2] == 13 else 'unopened'
            elif k == 'op':
                op, act = e[1], e[4]
                if act == 'i': continue         # an interrupted write is done again
                # an open starts a new attempt, unless it repeats one that found a stale file
                if op == 'open' and att is not None and not (len(att) == 2 and att[0]['op'] == 'open' and att[1]['op'] == 'unlink') and any(o['op'] != 'unlink' for o in att):
                    flush()
                if att is None: att = []
                att.append(dict(op=op, act=act))
            elif k == 'sel':
                if cur is None: cur = dict(sel=[], reqs=[], failed=[], maxout=0, left=0, opens=[])
                cur['sel'].append(ids.get(e[1], '?'))
            elif k == 'racall':
                if cur is None: cur = dict(sel=[], reqs=[], failed=[], maxout=0, left=0, opens=[])
                if e[1] > 0: r['rc'].append(cur)
                last = {}
            elif k == 'raret': cur = None
            elif k == 'ra':
                p, off, ln, f, err = e[1:6]
                q = dict(p=enc(p), off=sat(off // s.unit), len=sat(ln // s.unit), f=f, err=err, fb=[], fl=s.opened.get((f, p), 0), io=s.io.get(f, s.io.get(0, 0)))
                if cur is None:
                    cur = dict(sel=[], reqs=[], failed=[], maxout=0, left=0, opens=[]); r['rc'].append(cur)
                cur['reqs'].append(q); last[f] = q
            elif k == 'open':
                s.opened[(e[2], e[1])] = e[3]
                if cur is not None and e[3] not in cur['opens']: cur['opens'].append(e[3])
            elif k == 'ioprio':
                if e[1] == 1 and e[2] == 0: s.io[e[4]] = e[3] >> 13
            elif k in ('mmap', 'mad', 'munmap'):
                f = e[4] if k != 'mad' else e[4]
                q = last.get(f)
                if q is None: continue
                if k == 'munmap': q['fb'].append(dict(e=k, full=e[3]))
                else: q['fb'].append(dict(e=k, off=sat(e[2] // s.unit), len=sat(e[3] // s.unit), adv=e[5] if k == 'mad' else 0))
            elif k == 'fork' and cur is not None:
                s.io.pop(e[1], None)
                cur['maxout'] = max(cur['maxout'], e[2]); cur['left'] = e[2]
            elif k == 'forkfail' and cur is not None: cur['failed'].append(e[1])
            elif k == 'reap' and cur is not None: cur['left'] = e[1]
            elif k == 'echild' and cur is not None: cur['left'] = 0
        flush()
        for c in r['rc']: c['reqs'].sort(key=lambda q: q['f'])
        return r

    def logs(s, log):
        r = dict(savefail=0, conffail=0, dumps=[], cdumps=[], eline=0)
        cur = None; blk = None; grp = ''
        for m in log:
            if m.startswith('# loaded configuration at'): blk = []; grp = ''; r['cdumps'].append(blk); continue
            if m.startswith('# loaded configuration - end'): blk = None; continue
            if blk is not None:
                if re.fullmatch(r'\[\w+\]', m): grp = m[1:-1]
                elif ' = ' in m or m.endswith(' ='):
                    k, v = (m + ' ').split(' = ', 1) if ' = ' in m else (m[:-2], ' ')
                    v = v[:-1]
                    if re.fullmatch(r'-?\d+', v) and k != 'prediction_algorithm': v = str(sat(int(v)))
                    blk.append([grp + '.' + k, enc(v)])
                continue
            l = m.lower()
            if re.search('fail|error|cannot|invalid|could not', l):
                if 'conf' in l: r['conffail'] += 1
                elif 'sav' in l or 'state' in l: r['savefail'] += 1
            x = re.search(r'line (\d+)', l)
            if x and 'state' in l: r['eline'] = sat(int(x.group(1)))
            x = re.match(r'(preload time|num exes|num bad exes|num maps|num running exes) = (-?\d+)$', l)
            if x:
                if x.group(1) == 'preload time':
                    cur = {}; r['dumps'].append(cur)
                if cur is not None:
                    cur[{'preload time': 'time', 'num exes': 'exes', 'num bad exes': 'bad', 'num maps': 'maps', 'num running exes': 'run'}[x.group(1)]] = sat(int(x.group(2)))
        return r

    def trace(s, res):
        if hasattr(s.sc, 'argv'): import cmdline; return cmdline.trace(s.sc, res)
        sc = s.sc; lines = []; notes = []
        prevtmp = False; own = False; prev_disk = None; steadyref = {}
        for seg, out in zip(sc.segs, res):
            s.io = {}; s.opened = {}
            boot = True; disk = out['before']; ids = {}
            if disk is not None: disk = disk.replace(b'\0', b'\1')   # as the harness records it
            hand = seg['state'] is not None
            if hand: own = False
            n = 0
            rec = list(out['lines'])
            rc = out['rc']
            ended = any(l['k'] in ('exit', 'crash', 'hang') for l in rec)
            if not ended and rc != 98:
                rec.append(dict(k='hang', why='exit status %s' % rc)); 
            if any(l['k'] == 'hang' for l in rec) or rc not in (98, 99, 0, 1):
                notes.append(out['txt'])
            for j, l in enumerate(rec):
                k = l['k']
                if n == 0: e, nsig, fl = seg['env0'], 0, dict(seg['flag0'], steady=0)
                else:
                    if n - 1 >= len(seg['envs']): e, nsig, fl = seg['envs'][-1], 0, dict(rot=False, stale=False, steady=0)
                    else: e, nsig, fl = seg['envs'][n - 1], seg['nsig'][n - 1], seg['flags'][n - 1]
                n += 1
                if k == 'hang':
                    lines.append(dict(k='dead')); notes.append(str(l.get('why'))); break
                ln = dict(boot=boot, dsk=[], now=sat(l.get('now', next((x['now'] for x in reversed(lines) if 'now' in x), 0))), rot=fl['rot'])
                if fl['stale']: prevtmp = True
                ln.update(s.env(e))
                if boot and (hand or (not lines)):
                    if hand and seg['state'][0] == 'recs': recs = [dict(r) for r in seg['state'][1]]
                    else: recs = None if disk is None else lex_state(disk, s.unit)
                    ln['dsk'] = [s.disk(recs)]
                L = None
                if 'st' in l:
                    L = s.model(l['st']); ids = dict(ids); ids.update(s.ids)
                ev = s.events(l.get('ev', []), nsig, ids)
                ln.update(ev)
                lg = s.logs(l.get('log', []))
                ln.update(savefail=lg['savefail'], conffail=lg['conffail'], dumps=lg['dumps'], cdumps=lg['cdumps'], eline=lg['eline'])
                fin = k in ('exit', 'crash')
                dirl = out['dir'] if fin else l['dir']
                tmp = any(x != 'state' for x in dirl)
                attempted = bool(ev['att'])
                ln['tmp'] = tmp
                ln['tmpok'] = (prevtmp and (not attempted or any(o['op'] == 'open' and o['act'] == 'e' for o in ev['att'][-1]))) or any(o['op'] == 'unlink' and o['act'] == 'e' for a in ev['att'] for o in a)
                prevtmp = tmp
                renamed = any(o['op'] == 'rename' and o['act'] == '-' for a in ev['att'] for o in a)
                if renamed: own = True
                md = out['mode'] if fin else l.get('mode', [-1, -1])
                ln.update(vic=out['vic'] if fin else l.get('vic', 1), smode=md[0] if own else -1, lmode=md[1])
                if fin: new = out['after'] and out['after'].replace(b'\0', b'\1')
                elif 'sf' in l: new = None if l['sf'] is None else l['sf'].encode('latin-1')
                else: new = disk
                ln['dch'] = bool(renamed or new != disk)
                if boot: ln['dch'] = new != disk
                if ln['dch']: ln['disk'] = s.disk(None if new is None else lex_state(new, s.unit))
                disk = new
                ln['k'] = {'load': 'load', 'idle': 'idle', 'exit': 'exit', 'crash': 'crash'}[k]
                if k == 'exit' and boot: ln['k'] = 'fail'
                ln['code'] = l.get('code', 0)
                ln['wit'] = {}
                ln['logcur'] = bool(l.get('logcur', 1))
                ln['heapref'] = 0; ln['heap'] = 0; ln['fds'] = 0; ln['kids'] = 0
                if L is not None:
                    ln['L'] = L
                    ln['wit'] = {p: x['seq'] for p, x in L['exes'].items()}
                    ln['fds'] = l['fds']; ln['kids'] = l['kids']; ln['heap'] = l['heap']
                    if fl['steady']:
                        if fl['steady'] in steadyref: ln['heapref'] = steadyref[fl['steady']]
                        else: steadyref[fl['steady']] = len(lines) + 1
                elif new is not None:
                    ln['wit'] = {r['p']: sat(int(r['id'])) for r in lex_state(new, s.unit) if r['tag'] == 'EXE' and r.get('ok')}
                if fin: ln['logcur'] = None
                lines.append(ln)
                boot = False
                if fin: break
        # the exit line does not say which log is in use
        for ln in lines:
            if ln.get('logcur', True) is None: ln['logcur'] = True; ln['nolog'] = True
            else: ln['nolog'] = ln['k'] == 'dead'
        rank = {p: i for i, p in enumerate(sorted(s.paths))}
        reg = {k: dict(p=v['p'], pr=rank[v['raw']], off=v['off'], len=v['len'], page=v['page'], kb=v['kb']) for k, v in s.reg.items()}
        return dict(id=sc.id, unit=s.unit, light=sc.light, laws=sc.laws, debug=any(int(m) >= 5 for m in re.findall(r'(?:-V|--verbose)[ =]?(\d+)', ' '.join(sc.args))), quiet=any(a in ('0', '--verbose=2') for a in sc.args), reg=reg, lines=lines, **s.tab), notes

    def disk(s, recs):
        if recs is None: return dict(st='none')
        out = []
        for r in recs:
            r = dict(r)
            raw = r.pop('raw', None)
            if raw: s.region(*raw)
            out.append(r)
        return dict(st='file', recs=out)
