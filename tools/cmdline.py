"""Command lines: the daemon started with a list of arguments, what came of it, and the line for Trace.tla."""
import fcntl, json, os, re, select, shutil, signal, subprocess, tempfile, time
from vlib import enc, sat, senc, rd
import recs as R_

DC, DS, DL = 'dflt/etc/preload.conf', 'dflt/lib/preload.state', 'dflt/log/preload.log'

class Cmd:
    """argv: words, @/ standing for the scratch directory; what is behind the names is chosen by the rng"""
    light = False; segs = (); args = ()
    def __init__(s, sid, argv, rng):
        s.id, s.argv = sid, list(argv)
        pick = lambda w: rng.choices(['ok', 'bad', 'none'], w)[0]
        s.conf = {'@/c1': ('ok', [7, 8]), '@/c2': ('ok', [9, 11]), DC: (pick([8, 1, 1]), [5, 6]), '@/cx': (pick([1, 2, 2]), [12, 13])}
        s.state = {'@/st/s1': 100, '@/st/s2': rng.choice([200, -1]), DS: rng.choice([300, 300, -1, -2]), '@/st/sx': rng.choice([-1, -2, 400])}
        s.log = {'@/l1': True, '@/l2': True, DL: rng.random() < .9, '@/no/l': False}
        s.nofork = rng.random() < .12
        s.oldlog = rng.random() < .7
        s.mv = rng.random() < .6
    def conftext(s, n, k):
        st, c = s.conf[n]
        return None if st == 'none' else '[model]\ncycle=%d\n' % c[k] if st == 'ok' else '[model\ncycle=%d\n' % c[k]
    def statebytes(s, n):
        t = s.state[n]
        if t == -1: return None
        if t == -2: return b'PRELOAD\t0.6.4\t7\nMAP\t1\t2\n'
        return R_.header(t)[1] + b'\n'

def run(h, work, c):
    return [run1(h, work, c)]

def stop(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass

def run1(h, work, c):
    d = tempfile.mkdtemp(dir=work)
    try:
        for x in ('st', 'dflt/etc', 'dflt/lib', 'dflt/log'): os.makedirs(d + '/' + x)
        P = lambda n: n.replace('@', d, 1) if n.startswith('@/') else d + '/' + n
        for n in c.conf:
            t = c.conftext(n, 0)
            if t is not None: open(P(n), 'w').write(t)
        for n in c.state:
            b = c.statebytes(n)
            if b is not None: open(P(n), 'wb').write(b)
        if not c.log[DL]: os.rmdir(d + '/dflt/log')
        logs = [n for n in c.log if c.log[n]]
        if c.oldlog:
            for n in logs: open(P(n), 'w').write('an old line\n')
        pre = ['file /bin/a r 7 -1 0 0 0', 'proc 10 /bin/a', 'pm 10 ' + senc('00400000-00500000 r-xp 00000000 08:01 77                       /bin/a'), 'mem MemTotal:%20%208000%20kB%0AMemFree:%20%204000%20kB%0AMemAvailable:%205000%20kB%0ABuffers:%201%20kB%0ACached:%201%20kB%0A', 'vmstat pgpgin%201%0Apgpgout%201%0A'] + (['forkfail 1'] if c.nofork else [])
        body = ['adv', 'adv', 'probe A'] + ['mv %s %s' % (P(n), P(n) + '.old') for n in logs if c.mv]
        for n in c.conf:
            t = c.conftext(n, 1)
            if t is not None: body.append('putf %s %s' % (P(n), senc(t)))
        body += ['sig HUP', 'probe B', 'adv', 'sig TERM']
        open(d + '/script', 'w').write('\n'.join(pre + ['go'] + body) + '\n')
        before = tree(d)
        r, w = os.pipe()
        kw = fcntl.fcntl(w, fcntl.F_DUPFD_CLOEXEC, 60); os.close(w)     # held by every process of the daemon
        try:
            p = subprocess.Popen([h, d + '/script', d + '/trace'] + [a.replace('@/', d + '/') for a in c.argv], cwd=d, env=dict(os.environ, H_SCR=d, H_CMD='1'),
                                 stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=(kw,), start_new_session=True)
            os.close(kw); kw = -1
            try: out, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired: stop(p); out, err = p.communicate()
            end = time.time() + 40
            while time.time() < end and not select.select([r], [], [], 1)[0]: pass
            if time.time() >= end: stop(p)
        finally:
            os.close(r)
            if kw >= 0: os.close(kw)
        lines = []
        for l in (rd(d + '/trace') or b'').decode('latin-1').split('\n'):
            if l:
                try: lines.append(json.loads(l))
                except ValueError: lines.append(dict(k='hang'))
        return dict(rc=p.returncode, txt='%s\n%s' % (out[-1000:].decode('latin-1'), err[-2000:].decode('latin-1')), out=out, err=err, lines=lines, before=before, after=tree(d), modes=modes(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tree(d):
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            n = os.path.relpath(b + '/' + f, d)
            if n in ('script', 'trace'): continue
            r[n] = rd(b + '/' + f)
    return r

def modes(d):
    return {os.path.relpath(b + '/' + f, d): os.stat(b + '/' + f).st_mode & 0o7777 for b, _, fs in os.walk(d) for f in fs}

def line(c, o):
    """the recorded line"""
    name = lambda n: n if n.startswith('dflt/') or '@/' + n not in known else '@/' + n
    known = set(c.conf) | set(c.state) | set(c.log)
    ld = [l for l in o['lines'] if l['k'] == 'load']; idle = [l for l in o['lines'] if l['k'] == 'idle']; ex = [l for l in o['lines'] if l['k'] == 'exit']
    ev = [e for l in o['lines'] for e in l.get('ev', [])]
    txt = dict(o['after']); err = o['err'].decode('latin-1')
    # where the probes are to be read
    levels = {}
    for ph in 'AB':
        levels[ph] = {}
        for n, b in list(txt.items()) + [('', o['err'])]:
            ks = sorted({int(x) for x in re.findall(rb'probe %s (\d)' % ph.encode(), b)})
            if ks:
                if ph == 'A' and n.endswith('.old'): n = n[:-4]
                levels[ph][enc(name(n)) if n else ''] = ks
    changed = [n for n in txt if o['before'].get(n) != txt[n]] + [n for n in o['before'] if n not in txt]
    conf = {n[2:] if n.startswith('@/') else n for n in c.conf if c.conf[n][0] != 'none'}       # written by the script
    saved = sorted(enc(name(n)) for n in changed if txt.get(n, b'').startswith(b'PRELOAD'))
    logs = {n.lstrip('@/') if n.startswith('@/') else n for n in c.log}
    other = sorted(enc(n) for n in changed if not txt.get(n, b'').startswith(b'PRELOAD') and n not in conf and n not in logs and not (n.endswith('.old') and n[:-4] in logs) and b'probe' not in txt.get(n, b''))
    said = {}
    for n, b in list(txt.items()) + [('', o['err'])]:
        if n and n.endswith('.old'): n = n[:-4]
        new = b[len(o['before'].get(n, b'')):] if n in o['before'] else b
        ms = [m for m in re.findall(rb'^\[[^\]]*\] (.*)$', new, re.M) if b'Exiting' not in m]
        if ms and n not in [x.lstrip('@/') for x in c.state]: said[enc(name(n)) if n else ''] = len(ms)
    lost = sorted(enc(name(n)) for n, b in o['before'].items() if n in logs and not any(txt.get(x, b'').startswith(b) for x in (n, n + '.old')))
    # what it made, and left open to others; the state is anybody's of its group
    made = [n for n in txt if n not in o['before'] or (n in logs and n + '.old' in txt) or txt[n].startswith(b'PRELOAD') and n in changed]
    loose = sorted(enc(name(n)) for n in made if n not in conf and not (n.endswith('.old') and n[:-4] in logs) and o['modes'].get(n, 0) & (0o7 if txt[n].startswith(b'PRELOAD') else 0o77))
    hung = any(l['k'] in ('hang', 'crash') for l in o['lines']) or o['rc'] < 0
    ob = dict(rc=sat(o['rc']), out='usage' if o['out'].startswith(b'Usage: ') else 'version' if b'preload-0.' in o['out'] else '' if not o['out'] else 'other',
              err='usage' if 'Usage: ' in err else '', hung=hung,
              detached=['detach'] in ev, setsid=['setsid'] in ev, nice=[e[1] for e in ev if e[0] == 'nice'],
              cycle=[sat(ld[0]['st']['conf']['cycle'])] + [sat(l['st']['conf']['cycle']) for l in idle if l['pos'] and l['now'] is not None][-1:] if ld else [],
              time=[sat(l['st']['time']) for l in ld], code=[sat(l['code']) for l in ex], saved=saved, A=levels['A'], B=levels['B'], other=other, said=said, lost=lost, loose=loose)
    cf = {enc(n): dict(st=st, cycle=cy) for n, (st, cy) in c.conf.items()}
    return dict(k='cmd', argv=[enc(a) for a in c.argv], fs=dict(conf=cf, state={enc(n): t for n, t in c.state.items()}, log={enc(n): b for n, b in c.log.items()}), nofork=c.nofork, o=ob)

def trace(c, o):
    o = o[0]
    return dict(id=c.id, unit=1, light=False, laws=False, debug=False, quiet=False, reg={}, procs=[], files=[], mem=[], bat=[], conf=[], lines=[line(c, o)]), []
