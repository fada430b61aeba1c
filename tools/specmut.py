#!/usr/bin/env python3
"""specmut.py [n ...]: does the specification say anything?  Each entry breaks one operator of the specification
(in a scratch copy of spec/) and names the models that have to refuse it.  Not a registered check."""
import os, shutil, sys, tempfile, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, run_tlc, models

M = [
 # Preload
 ('Preload', 'Len(h0) > MaxDepth THEN Tail(h0)', 'Len(h0) > MaxDepth + 1 THEN Tail(h0)', ['tree:9']),
 ('Preload', 'IF Len(m.ctx) >= MaxDepth THEN <<>> ELSE m.ctx', 'm.ctx', ['tree:11']),
 ('Preload', '!.nodes = Drop(@, {k \\in DOMAIN @ : SeqHas(k, p)})]', '!.nodes = Drop(@, {k \\in DOMAIN @ : k[Len(k)] = p})]', ['gone', 'gone3']),
 ('Preload', '!.ctx   = IF SeqHas(@, p) THEN <<>> ELSE @,', '', ['gone', 'gone3']),
 ('Preload', '!.hist  = SelectSeq(@, LAMBDA q : q # p),', '', ['gone', 'gone3']),
 ('Preload', 'IF c.st = new THEN c ELSE\n', '', ['learn']),
 ('Preload', '!.w[o][o] = @ + 1,', '!.w[o][o] = @ + 2,', ['learn']),
 ('Preload', '!.st      = new,', '', ['learn']),
 ('Preload', 'THEN Append(acc, [k |-> Key(f[1], r), len |-> r.len]) ELSE acc,', 'THEN Append(acc, [k |-> Key(r.x, r), len |-> r.len]) ELSE acc,', ['maps']),
 ('Preload', 'ELSE IF sz >= minsize THEN', 'ELSE IF sz > minsize THEN', ['maps']),
 ('Preload', 'IF pr.pid = SelfPid \\/ pr.unr', 'IF pr.unr', ['procs']),
 ('Preload', 'ELSE IF p \\in DOMAIN a.bad THEN a\n', '', ['procs', 'small']),
 ('Preload', '[] f = "pend"  -> s1.pend \\union (m.rlist \\ still)', '[] f = "pend"  -> s1.pend', ['learn']),
 ('Preload', 'CASE f = "rlist" -> s1.newrun \\union still', 'CASE f = "rlist" -> s1.newrun \\union m.rlist', ['learn']),
 ('Preload', 'nc == [c \\in {<<q, p>> : q \\in DOMAIN m.exes} |->', 'nc == [c \\in {<<q, p>> : q \\in m.rlist} |->', ['learn']),
 ('Preload', 'IF Running(m, p) THEN [@[p] EXCEPT !.time = @ + period] ELSE @[p]]', 'IF p \\in m.rlist \\/ m.exes[p].ct = m.time THEN [@[p] EXCEPT !.time = @ + period] ELSE @[p]]', ['learn']),
 ('Preload', 'IF @[c].st = 3 THEN [@[c] EXCEPT !.t', 'IF @[c].st # 0 THEN [@[c] EXCEPT !.t', ['learn']),
 ('Preload', '!.lat    = m.time]', '!.lat    = m.time - 1]', ['learn']),
 ('Preload', 'm3 == Account(m2)\n', 'm3 == Account(m1)\n', ['learn', 'resume']),
 ('Preload', '[m3 EXCEPT !.pend = {}, !.new = EmptyF, !.mdirty = FALSE, !.dirty = TRUE]', '[m3 EXCEPT !.pend = {}, !.new = EmptyF, !.mdirty = FALSE]', ['save']),
 ('Preload', 'Stale(m, files) == {p \\in DOMAIN m.exes : ~Running(m, p) /\\ Gone(files, p)}', 'Stale(m, files) == {p \\in DOMAIN m.exes : Gone(files, p)}', ['gone']),
 ('Preload', '!.chains = Drop(@, {c \\in DOMAIN @ : c[1] = p \\/ c[2] = p}),', '!.chains = Drop(@, {c \\in DOMAIN @ : c[1] = p}),', ['gone', 'gone3']),
 ('Preload', 'IN [m1 EXCEPT !.bad = EmptyF]', 'IN m1', ['small']),
 ('Preload', '!.time = c.time, !.lat = c.time, !.lrt = 0,', '!.time = c.time, !.lat = 0, !.lrt = 0,', ['resume']),
 ('Preload', 'THEN LET b == [a EXCEPT !.exes[p].rt = m0.time, !.rlist = @ \\union {p}]', 'THEN LET b == [a EXCEPT !.exes[p].rt = m0.time]', ['resume']),
 ('Preload', '[@[k] EXCEPT !.st = CState(m2, k[1], k[2])]]]', '@[k]]]', ['resume']),
 # Daemon
 ('Daemon', '!.tk = "update", !.tdue = e.now + (2000 * c.cycle)]', '!.tk = "update", !.tdue = e.now + (1000 * c.cycle)]', ['power']),
 ('Daemon', 'm1 == IF d.m.mdirty THEN Update', 'm1 == IF d.m.mdirty /\\ ~OnBattery(e.bat) THEN Update', ['power']),
 ('Daemon', '!.tdue = e.now + (1000 * ((c.cycle + 1) \\div 2))]', '!.tdue = e.now + (1000 * (c.cycle \\div 2))]', ['powerx', 'auto']),
 ('Daemon', 'c.dopredict = 1 THEN Append', 'TRUE THEN Append', ['powerx']),
 ('Daemon', 'rd |-> [res |-> "loaded", line |-> 0, c |-> Content(d.m)]], !.m.dirty = FALSE]', 'rd |-> [res |-> "loaded", line |-> 0, c |-> Content(Cleanup(d.m, e.files))]], !.m.dirty = FALSE]', ['gone']),
 ('Daemon', '!.m.dirty = FALSE] ELSE d2', '!.m.dirty = FALSE] ELSE [d2 EXCEPT !.m.dirty = FALSE]', ['save']),
 ('Daemon', 'IF ~d.m.dirty THEN [Cleaned(d, e)', 'IF ~d.m.dirty \\/ d.m.mdirty THEN [Cleaned(d, e)', ['save']),
 ('Daemon', 'ok  == Renamed(ops)', 'ok  == ~Crashed(ops)', ['save']),
 ('Daemon', '!.sdue = e.now + (1000 * d1.c.autosave)]', '!.sdue = @ + (500 * d1.c.autosave)]', ['auto']),
 ('Daemon', 'IF Valid(e.conf) THEN [d EXCEPT !.c = Load(e.conf)]', 'IF e.conf.st = "ok" THEN [d EXCEPT !.c = Load(e.conf)]', ['conf']),
 ('Daemon', '[d1 EXCEPT !.m = StartAlgorithm(@, Vomm(d1.c)), !.nreopen = @ + 1]', '[d1 EXCEPT !.m = StartAlgorithm(@, Vomm(d1.c))]', ['signals']),
 ('Daemon', '[] sig = "USR2" -> Save(d, e)', '[] sig = "USR2" -> Autosave(d, e)', ['signals']),
 ('Daemon', 'Finish(d, e) == LET d1 == Save(d, e) IN', 'Finish(d, e) == LET d1 == d IN', ['signals']),
 ('Daemon', '/\\ \\E i \\in 1..r : ops[i].op = "sync" /\\ ops[i].act = "-" /\\ \\A j \\in w : j < i\n', '/\\ TRUE\n', ['proto']),
 ('Daemon', '/\\ \\A j \\in w : j < i\n', '\n', ['proto']),
 ('Daemon', '/\\ \\A i \\in DOMAIN ops : ops[i].op \\in {"write", "trunc"} => i < r', '', ['proto']),
 # StateFile
 ('StateFile', 'IF ~r.ok \\/ r.id \\in DOMAIN a.ids \\/ r.p \\in DOMAIN a.exes THEN Refuse', 'IF ~r.ok \\/ r.id \\in DOMAIN a.ids THEN Refuse', ['file']),
 ('StateFile', '\\/ r.a = r.b\n', '\n', ['file']),
 ('StateFile', '\\/ HasPair(a, a.ids[r.a], a.ids[r.b]) THEN', '\\/ <<a.ids[r.a], a.ids[r.b]>> \\in DOMAIN a.chains THEN', ['file']),
 ('StateFile', 'Len(k) > MaxDepth \\/ k \\in DOMAIN a.nodes', 'Len(k) > MaxDepth', ['file']),
 ('StateFile', 'IF n > 1 \\/ ~r.ok THEN Refuse(a, n)', 'IF ~r.ok THEN Refuse(a, n)', ['file']),
 ('StateFile', '(IF k \\in DOMAIN b THEN b[k] ELSE 0) + 1)]', '1)]', ['file']),
 ('StateFile', 'IF r.parent \\notin DOMAIN a.nid THEN b ', 'IF r.parent \\notin DOMAIN a.nid THEN [b EXCEPT !.nodes = Put(@, <<a.ids[r.exe], a.ids[r.exe]>>, 1)] ', ['file']),
 ('StateFile', 'time |-> c.exes[ps[i]].time]]', 'time |-> c.time]]', ['save']),
 # Predict
 ('Predict', 'f(i) == M - Min2(M, Mul(Mul(Min2(nx, M), lp[i]), cr[i]))', 'f(i) == M - Mul(Mul(nx, lp[i]), cr[i])', ['file']),
 ('Predict', 'Bid(m, acc, p, share) == IF Running(m, p) THEN acc\n', 'Bid(m, acc, p, share) == IF FALSE THEN acc\n', ['tree']),
 ('Predict', 'IF c.st % 2 = 0 THEN [acc EXCEPT', 'IF TRUE THEN [acc EXCEPT', ['learn']),
 ('Predict', 'Min2(990000, Frac(m.nodes[x], tot))', 'Min2(990000, Frac(tot - m.nodes[x], tot))', ['resumev', 'tree']),
 ('Predict', '/\\ S # {} => left >= 0\n', '/\\ TRUE\n', ['select']),
 ('Predict', '/\\ \\A x \\in S : neg[x]\n', '', ['select']),
 ('Predict', '/\\ (~neg[u] \\/ kb[u] > left)', '', ['select']),
 ('Predict', '/\\ \\A x \\in S, u \\in U : rank[x] <= rank[u]\n', '', ['select']),
 # laws of the scores and of the budget
 ('Predict', '(t * c.t) - (ta * tb)', '(t * c.t) - (ta * ta)', ['bids']),
 ('Predict', 'ta * (t - ta), tb * (t - tb)', 'ta * (t - ta), ta * (t - ta)', ['bids']),
 ('Predict', 'x == 150 * conf.cycle * w', 'x == 150 * w', ['bids']),
 ('Predict', 's < (100 * w) - 1 THEN <<0, 0>>', 's < 0 THEN <<0, 0>>', ['bids']),
 ('Predict', 'THEN M ELSE M - ExpNeg(Frac(x, z))', 'THEN M ELSE ExpNeg(Frac(x, z))', ['bids']),
 ('Predict', 'nx == Frac(100 * (c.w[o][y] + c.w[o][4]), (100 * n) + 1)', 'nx == Frac(100 * c.w[o][y], (100 * n) + 1)', ['bids']),
 ('Predict', 'nx == Frac(100 * (c.w[o][y] + c.w[o][4]), (100 * n) + 1)', 'nx == Frac(100 * (c.w[o][y] + c.w[o][4]), n + 1)', ['bids']),
 ('Predict', 'IF c.st \\div 2 = 0 THEN [a1', 'IF TRUE THEN [a1', ['bids']),
 ('Predict', 'k[1], k[2], c, 3))]', 'k[1], k[2], c, 2))]', ['bids']),
 ('Predict', 'IF conf.usecorrelation = 0 THEN <<M, M>>', 'IF conf.usecorrelation = 1 THEN <<M, M>>', ['bids']),
 ('Predict', 'Min2(500000, 100000 +', 'Max2(500000, 100000 +', ['seqs']),
 ('Predict', '100000 + ((4 * Frac', '((4 * Frac', ['seqs']),
 ('Predict', 'prs == {x \\in DOMAIN m.nodes : Len(x) = 2}', 'prs == {x \\in DOMAIN m.nodes : Len(x) = 1}', ['seqs']),
 ('Predict', 'Ppm(m, a, <<q>>) ELSE a, s0, m.hist)', 'Ppm(m, a, <<q>>) ELSE a, s0, Tail(m.hist))', ['seqs']),
 ('Predict', 'ELSE Neighbours(m, Ppm(m, s1, m.ctx), m.ctx)', 'ELSE s1', ['seqs']),
 ('Preload', 'IN NodeAdd(NodeEnsure(n1, <<q>>), <<q, p>>, 1)', 'IN NodeAdd(NodeEnsure(n1, <<q>>), <<q, p>>, 2)', ['seqs']),
 ('Preload', 'IF Len(h) < 2 THEN n1', 'IF Len(h) < 3 THEN n1', ['seqs']),
 ('Preload', 'n1   == NodeAdd(m.nodes, nx, 1)', 'n1   == NodeEnsure(m.nodes, nx)', ['seqs']),
 ('Predict', 'IF v > 100 THEN 100 ELSE', '', ['budget']),
 ('Predict', 'IF v < -100 THEN -100 ELSE v', 'IF v < -100 THEN 0 ELSE v', ['budget']),
 ('Predict', 'IF mem.avail >= 0 THEN mem.avail', 'IF mem.avail > 0 THEN mem.avail', ['budget']),
 ('Predict', '((mem.cached \\div 100) * 80) + (((mem.cached % 100) * 80) \\div 100)', '((mem.cached \\div 100) * 180)', ['budget']),
 ('Predict', 'Max2(0, base) +', 'base +', ['budget']),
 ('Predict', '+ (Clamp(conf.membuffers) * (mem.buffers \\div 100))', '', ['budget']),
 ('Predict', 'Clamp(conf.memcached) * (mem.cached \\div 100)', 'Clamp(conf.membuffers) * (mem.cached \\div 100)', ['budget']),
 # Readahead
 ('Readahead', '/\\ r.off + r.len >= x.off\n', '/\\ r.off + r.len + 1 >= x.off\n', ['merge']),
 ('Readahead', 'hi == IF x.off + x.len > r.off + r.len THEN x.off + x.len ELSE r.off + r.len', 'hi == x.off + x.len', ['merge']),
 ('Readahead', '/\\ r.p = x.p\n', '', ['merge']),
 ('Readahead', 'PathLess(reg, a, b) ==\n  \\/ reg[a].pr < reg[b].pr', 'PathLess(reg, a, b) ==\n  \\/ FALSE', ['merge']),
 # the readers
 ('MC_Readers', 'Prio == pc = "prio" /\\ idle\' = TRUE', 'Prio == pc = "prio" /\\ idle\' \\in BOOLEAN', ['readers']),
 ('MC_Readers', 'Opens(r) == ~(Patient /\\ r \\in pipes)', 'Opens(r) == r \\notin pipes', ['readers']),
 ('MC_Readers', 'IF procs >= MaxProcs /\\ procs > 0', 'IF procs > MaxProcs /\\ procs > 0', ['readers']),
 ('MC_Readers', 'alive = {} /\\ zombie = {} /\\ procs\' = 0 /\\ UNCHANGED zombie', 'FALSE /\\ UNCHANGED zombie /\\ procs\' = 0', ['readers']),
 ('MC_Readers', 'Last  == pc = "next" /\\ i > N /\\ pc\' = "last"', 'Last  == pc = "next" /\\ i > N /\\ pc\' = "done"', ['readers']),
 # the command line
 ('Cmdline', '[] x = "d" -> [r EXCEPT !.log = "", !.fg', '[] x = "d" -> [r EXCEPT !.fg', ['cmd']),
 ('Cmdline', 'IF Cardinality(M) # 1 THEN Bad', 'IF Cardinality(M) = 0 THEN Bad', ['cmd']),
 ('Cmdline', 'x \\notin TakesArg THEN IF eq # 0 THEN Bad(r, "excess") ELSE Parse', 'x \\notin TakesArg THEN Parse', []),
 ('Cmdline', 'IF r.st # "run" \\/ av = <<>> \\/ Head(av) = "--" THEN r', 'IF av = <<>> \\/ Head(av) = "--" THEN r', ['cmd']),
 ('Cmdline', '\\/ Head(av) = "--" THEN r', 'THEN r', ['cmd']),
 ('Cmdline', 'Parse(r, rest)             \\* not an option: ignored', 'r             \\* not an option: ignored', ['cmd']),
 ('Cmdline', 'ELSE IF more # "" THEN Parse(Do(r, x, more), rest)', 'ELSE IF FALSE THEN r', ['cmd']),
 ('Cmdline', '[] x = "s" -> [r EXCEPT !.state = a]', '[] x = "s" -> [r EXCEPT !.state = IF @ = Default.state THEN a ELSE @]', ['cmd']),
 ('Cmdline', 'Visible(v, k) == k <= v', 'Visible(v, k) == k = v', ['cmd']),
 # what others may do
 ('MC_Plant', 'IF at = "-" \\/ (~Exclusive /\\ at # "d")', 'IF at \\in {"-", "h"}', ['plant']),
 ('MC_Plant', 'IF at = "d" THEN Fail /\\ UNCHANGED at ELSE', 'IF at = "d" THEN pc\' = "idle" /\\ UNCHANGED <<at, fd, failed, told>> ELSE', ['plant']),
 ('MC_Plant', 'told\' = told \\union {n}', 'told\' = told', ['plant']),
 # reading the state file
 ('MC_Load', 'IF Partial THEN pc\' = "up" /\\ res\' = "loaded"', 'IF line > 0 THEN pc\' = "up" /\\ res\' = "loaded"', ['load']),
 ('MC_Load', 'pc = "read" /\\ ~Complete /\\ got = Total /\\ pc\' = "up"', 'pc = "read" /\\ ~Complete /\\ pc\' = "up"', ['load']),
 ('MC_Load', '[] how = "denied" -> pc\' = "down" /\\ res\' = "refused"', '[] how = "denied" -> pc\' = "up" /\\ res\' = "loaded"', ['load']),
 ('MC_Load', 'ints < Intrs /\\ ints\' = ints + 1 /\\ Add("intr", 0)\n  /\\ UNCHANGED <<pc, got, line, n, res, disk, lost>>', 'ints < Intrs /\\ ints\' = ints + 1 /\\ Add("intr", 0) /\\ pc\' = "down" /\\ res\' = "refused"\n  /\\ UNCHANGED <<got, line, n, disk, lost>>', ['load']),
 # late wake-ups
 ('Daemon', '!.tk = "update", !.tdue = e.now + (2000 * c.cycle)]', '!.tk = "update", !.tdue = d.tdue + (2000 * c.cycle)]', []),
 ('Daemon', '!.tdue = e.now + (1000 * ((c.cycle + 1) \\div 2))]', '!.tdue = d.tdue + (1000 * ((c.cycle + 1) \\div 2))]', ['late']),
 ('Conf', '<<"model.memfree", ToString(c.memfree)>>', '<<"model.memfree", ToString(c.memtotal)>>', ['conff']),
 # what followed what
 ('Predict', 'Followed(f, before, after, known, vomm) ==\n  LET kept == {x \\in f.fol : x[1] \\in known /\\ x[2] \\in known}', 'Followed(f, before, after, known, vomm) ==\n  LET kept == f.fol', ['gone:11']),
 # Conf, Strs
 ('Conf', '/\\ LastKey(file.kv, i)) => file.kv[i].ok', ') => file.kv[i].ok', ['conff']),
 ('Conf', "\\/ file.st = \"ok\" /\\ \\A i", "\\/ file.st \\in {\"ok\", \"missing\"} /\\ \\A i", []),
 ('Conf', 'kv[j].g = kv[i].g /\\ kv[j].k', 'kv[j].k', ['conff']),
]

def main():
    pick = [int(x) for x in sys.argv[1:]] or range(len(M))
    src = vlib.VERIF + '/spec'; missed = 0
    for i in pick:
        mod, old, new, ms = M[i]
        if not ms: continue
        d = tempfile.mkdtemp(prefix='specmut-')
        try:
            shutil.copytree(src, d + '/spec')
            t = open('%s/spec/%s.tla' % (d, mod)).read()
            if old not in t: print(i, 'NOT FOUND', mod, old.strip()); missed += 1; continue
            open('%s/spec/%s.tla' % (d, mod), 'w').write(t.replace(old, new, 1))
            run_tlc.VERIF = d
            got = []
            for m in ms:
                name, _, dep = m.partition(':')
                if name in models.DMODELS:
                    x = models.DMODELS[name]
                    if dep: models.DMODELS[name] = x[:4] + (int(dep),) + x[5:]
                    r, _ = models.daemon_model(name, True, False); models.DMODELS[name] = x
                    rs = [r]
                else:
                    e = models.ENUM[name](True, random.Random(1), 1)
                    rs = [models.run_model(name, s[0], dict(s[1], **({'Show': 'FALSE'} if 'Show' in s[1] else {})), invs=s[2], props=s[3] if len(s) > 3 else (), subst=s[4] if len(s) > 4 else ())[0] for s, _ in (e if isinstance(e, list) else [e])]
                for r in rs:
                    if not r['ok']:
                        import re
                        w = re.findall(r'Invariant (\w+) is violated|property (\w+) is violated|(Action property \S+ )|Temporal properties were (violated)|(evaluating|Attempted|Error: .{0,60})', r['out'])
                        got.append('%s:%s' % (name, ''.join(w[0]) if w else '?'))
                if any('arsing' in g for g in got): got = []; print('DOES NOT PARSE', end=' ')
                if got: break
            if not got: missed += 1
            print(i, 'refused' if got else 'ACCEPTED', mod, repr(old.strip()[:60]), '->', repr(new.strip()[:60]), got, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print('accepted:', missed)
    return 1 if missed else 0
if __name__ == '__main__': sys.exit(main())
