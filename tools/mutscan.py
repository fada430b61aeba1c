#!/usr/bin/env python3
"""mutscan.py SEED N [FILE-REGEX]: plants small random changes in scratch copies of the daemon and reports
which of those that pass the unit tests no scenario tells apart from the original (not a registered check)."""
import os, random, re, shutil, subprocess, sys, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from run_tlc import conform
from profiles import PROPS, Gen, ALL, MODEL

SRC = 'preload-src/src'
OPS = [(r'(?<![<>=!\-])<(?![<=])', '<='), (r'(?<![<>=\-])>(?![>=])', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<=[\w)\]]) \+ (?=[\w(])', ' - '), (r'(?<=[\w)\]]) - (?=[\w(])', ' + '), (r'\+\+', '--'), (r'\+=', '-='), (r'\bTRUE\b', 'FALSE'), (r'\bFALSE\b', 'TRUE'), (r'\b1\b', '2'), (r'\b0\b', '1'),
       (r'\b([2-9]|\d\d+)\b', lambda m: str(int(m.group()) + 1)), (r' \* (?=[\w(])', ' + '), (r' / ', ' * '), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'),
       (r'\bif \((?=.*\)\s*\{?\s*$)', 'if (0 && '), (r'\bif \((?=.*\)\s*\{?\s*$)', 'if (1 || '), (r'^(\s+)([\w\->.\[\]\*]+ [-+*/|&]?= .*;|[a-z]\w* \(.*\);|[a-z]\w*\(.*\);)\s*$', r'\1;'), (r'goto \w+;', ';'), (r'return;', ';'),
       (r'->a\b', '->b'), (r'\ba->', 'b->'), (r'\[i\]', '[0]'), (r'\breturn (?!\w+ *\()([^;]+);', 'return !(\\1);')]

def sites(root, filt):
    out = []
    for d, _, fs in os.walk(root + '/' + SRC):
        if 'tests' in d: continue
        for f in fs:
            if not f.endswith('.c') or not re.search(filt, f): continue
            fn = os.path.join(d, f)
            if fn.endswith('daemon/spy.c'): continue      # not built
            inc = False
            for n, l in enumerate(open(fn).read().split('\n')):
                if '/*' in l: inc = True
                skip = inc or l.lstrip().startswith(('//', '#', '*')) or re.search(r'g_(debug|warning|message|critical|log)|fprintf|printf|g_return|static|extern', l) or not l.startswith((' ', '\t'))
                if '*/' in l: inc = False
                if skip: continue
                for k, (a, b) in enumerate(OPS):
                    for m in re.finditer(a, l): out.append((fn[len(root) + 1:], n, k, m.start()))
    return out

def scenarios(rng, scale):
    out = []
    s0 = str(rng.random())
    for pid, p in PROPS.items():
        for d in p.get('d', []):
            if d.__name__ in ('d_bytes', 'd_names'): continue
            l = d(rng, True, s0); out += rng.sample(l, min(len(l), 6 * scale))
        for name, n, kw in p.get('h', []):
            out += [Gen(random.Random('%s/%s/%d' % (s0, name, i)), '%s-%s.%d' % (pid, name, i), **kw).history() for i in range(3 * scale)]
    for i, s in enumerate(out): s.id = '%d:%s' % (i, s.id)
    return out

def main():
    seed, n = sys.argv[1], int(sys.argv[2]); filt = sys.argv[3] if len(sys.argv) > 3 else '.'
    rng = random.Random(seed)
    work = tempfile.mkdtemp(prefix='mutscan-')
    try:
        root = work + '/repo'; subprocess.check_call(['cp', '-a', '/repo', root])
        S = sites(root, filt); print(len(S), 'sites', flush=True)
        scs = scenarios(rng, 1)
        for s in rng.sample(S, min(n, len(S))):
            f, ln, k, pos = s
            fn = root + '/' + f; orig = open(fn).read(); L = orig.split('\n')
            a, b = OPS[k]; l = L[ln]; m = re.compile(a).search(l, pos)
            if not m: continue
            new = l[:m.start()] + (b(m) if callable(b) else m.expand(b) if '\\' in b else b) + l[m.end():]
            if new == l: continue
            L[ln] = new; open(fn, 'w').write('\n'.join(L))
            tag = '%s:%d  %s  ->  %s' % (f[len(SRC) + 1:], ln + 1, l.strip(), new.strip())
            try:
                try:
                    p = subprocess.run('cd %s/preload-src && make -s test_runner && timeout 30 ./test_runner' % root, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                except subprocess.TimeoutExpired: print('TIMEOUT', tag, flush=True); continue
                if p.returncode or b'FAIL:' in p.stdout: print('KILLED-BY-TESTS', tag, flush=True); continue
                if subprocess.run(['bash', VERIF + '/harness/build.sh', work + '/hb'], env=dict(os.environ, REPO=root), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: print('NOBUILD', tag, flush=True); continue
                shutil.rmtree(work + '/runs', ignore_errors=True); os.mkdir(work + '/runs')
                R = Runner(work + '/hb', work + '/runs')
                trs = [Canon(sc).trace(r)[0] for sc, r in zip(scs, R.run_all(scs))]
                bad, ok, out, lines = conform(trs)
                hit = {}
                for i, v in bad.items():
                    for n_, fs in v:
                        for x in fs: hit[x] = hit.get(x, 0) + 1
                print('caught' if hit else ('ERROR' if not ok else 'MISSED'), tag, sorted(hit.items(), key=lambda x: -x[1])[:6], flush=True)
                if not ok and not hit: print(out[-1500:])
            finally:
                open(fn, 'w').write(orig); os.utime(fn)
    finally:
        shutil.rmtree(work, ignore_errors=True)
main()
