import json, os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLC = '/opt/veriftools/tla'
CP = TLC + '/tla2tools.jar:' + TLC + '/CommunityModules-deps.jar'

def tlc(module, cfg=None, env=None, workers=8, mem='6g', timeout=850, extra=(), jprops=(), gc='-XX:+UseParallelGC'):
    """run TLC on spec/<module>.tla; returns (exit code, output)"""
    meta = tempfile.mkdtemp(prefix='tlc-')
    try:
        e = dict(os.environ, **(env or {}))
        cmd = ['java', gc, '-Xss64m', '-Xmx' + mem, '-Djava.io.tmpdir=' + meta, *jprops, '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfg or module + '.cfg', *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=VERIF + '/spec', env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return p.returncode, p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as x:
            return -1, (x.stdout or b'').decode('utf-8', 'replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def conform(traces, timeout=800, keep=None, jvms=8):
    """check traces with Trace.tla: (problems {trace id: [(line, {fields})]}, ok, output, lines checked)"""
    n = max(1, min(jvms, len(traces)))
    # shards of about equal numbers of lines
    shards = [[] for _ in range(n)]; load = [0] * n
    for t in sorted(traces, key=lambda t: -len(t['lines'])):
        k = load.index(min(load)); shards[k].append(t); load[k] += len(t['lines'])
    big = max(load) > 6000
    d = tempfile.mkdtemp(prefix='traces-')
    def one(k):
        fn = '%s/%d.json' % (d, k)
        json.dump(shards[k], open(fn, 'w'))
        return tlc('Trace', env=dict(TRACES=fn), timeout=timeout, mem='3g', workers=1,
                   jprops=[] if big else ['-XX:TieredStopAtLevel=1'], gc='-XX:+UseSerialGC')
    try:
        with ThreadPoolExecutor(n) as ex: rs = list(ex.map(one, range(n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if keep: json.dump(traces, open(keep, 'w'))
    bad = {}
    out = ''; ok = True; lines = 0
    for rc, o in rs:
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(.*?),\s*(\d+),\s*\{(.*?)\}\s*>>', o, re.S):
            bad.setdefault(m.group(1).strip('"'), []).append((int(m.group(2)), set(re.findall(r'"([^"]+)"', m.group(3)))))
        m = re.search(r'<<\s*"LINES",\s*(\d+),\s*(\d+)\s*>>', o)
        if m: lines += int(m.group(1))
        if not (rc == 0 and 'No error has been found' in o and m and m.group(1) == m.group(2)):
            ok = False; out += o[-6000:]
    return bad, ok, out, lines
