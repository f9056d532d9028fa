#!/usr/bin/env python3
"""mutants.py SECONDS WORKERS SEED [FILE...]: plants random one-place changes into copies of /repo, keeps those that pass the
repository's tests, and runs the checks concerned on them. Prints what no check caught (to be looked at: many change nothing).
Everything happens under /tmp/mut; used while developing, no check needs it."""
import json, os, random, re, subprocess, sys, threading, time, shutil
secs, workers, seed = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
CHECKS = {
 'rfc5424/machine.go': 'C01 C02 C03 C04 C06 C05', 'rfc3164/machine.go': 'C10 C11 C13 C12 C06 C05', 'rfc5424/builder.go': 'C21 C22 C23',
 'common/functions.go': 'C29 C24 C01 C02 C22', 'common/facility.go': 'C24', 'common/severity.go': 'C24', 'syslog.go': 'C24 C02 C21',
 'octetcounting/parser.go': 'C14 C15 C16 C17 C20 C26 C27 C28', 'octetcounting/scanner.go': 'C14 C15 C16 C17 C20 C27 C28 C30',
 'octetcounting/tokens.go': 'C14 C15 C16', 'nontransparent/parser.go': 'C18 C19 C20 C25 C26 C27 C28 C07 C30', 'nontransparent/trailer_type.go': 'C25',
 'options.go': 'C26 C17', 'rfc5424/parser.go': 'C01 C03 C08 C26', 'rfc3164/parser.go': 'C10 C13 C08 C26', 'rfc5424/options.go': 'C01 C26', 'rfc3164/options.go': 'C12 C26',
 'rfc3164/year.go': 'C12', 'rfc5424/syslog_message.go': 'C02 C03 C24', 'rfc3164/syslog_message.go': 'C11 C13 C24',
}
W = {'rfc5424/machine.go': 10, 'rfc3164/machine.go': 10, 'rfc5424/builder.go': 8, 'octetcounting/scanner.go': 3, 'octetcounting/parser.go': 3, 'nontransparent/parser.go': 4, 'nontransparent/trailer_type.go': 2, 'common/functions.go': 2, 'syslog.go': 2}
files = sys.argv[4:] or list(CHECKS)
rng = random.Random(seed)
lock = threading.Lock()
stats = dict(made=0, nobuild=0, tests=0, caught=0, missed=0)
log = open('/tmp/mut/log.%d' % seed, 'w')
seen = set()

def mutate(src):
    lines = src.split('\n')
    for _ in range(200):
        i = rng.randrange(len(lines))
        l = lines[i]; s = l.strip()
        if not s or s.startswith('//') or s.startswith('import') or s.startswith('package') or s.startswith('"') or 'Errorf' in s and rng.random() < .5:
            continue
        if re.match(r'^case \d+:$', s) and i + 1 < len(lines) and re.match(r'^goto (stCase)\d+$', lines[i+1].strip()):
            continue  # the dispatch table
        if re.match(r'^goto stCase\d+$', s) or re.match(r'^(const|var) ', s): continue
        ops = []
        for m in re.finditer(r'(?<![\w.])(\d+)(?!\w)', l):
            n = int(m[1])
            for d in (1, -1):
                if n + d >= 0: ops.append(l[:m.start()] + str(n + d) + l[m.end():])
        for a, bs in (('<=', ['<', '==']), ('>=', ['>']), (' < ', [' <= ']), (' > ', [' >= ', ' < ']), ('==', ['!=']), ('!=', ['==']), ('&&', ['||']), ('||', ['&&']), ('++', ['--']), ('true', ['false']), ('false', ['true']), (' + ', [' - ']), (' - ', [' + '])):
            for m in re.finditer(re.escape(a), l):
                for b in bs:
                    ops.append(l[:m.start()] + b + l[m.end():])
        m = re.match(r'^(\s*goto (?:st|tr))(\d+)$', l)
        if m:
            n = int(m[2])
            ops += [m[1] + str(n + d) for d in (1, -1, 2, -2, rng.randrange(-30, 30)) if n + d >= 0]
            g = [x for x in lines[max(0, i-40):i+40] if re.match(r'^\s*goto (st|tr)\d+$', x)]
            ops += [rng.choice(g)] * 3
        if re.match(r'^[\w.()\[\]]+ (=|:=) .*[^{]$', s) and ':=' not in s or re.match(r'^[\w.]+\([^{]*\)$', s) or s in ('break', 'return') or s.endswith('++') or s.endswith('--'):
            ops += [''] * 2
        if s.startswith('if ') and s.endswith('{') and ';' not in s:
            c = s[3:-1].strip()
            ops += [l.replace(c, '!(%s)' % c)]
        if not ops: continue
        n = rng.choice(ops)
        if n == l: continue
        key = (i, n)
        return i, l, n
    return None

def sh(cmd, cwd, env=None, t=1200):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors='replace', env=env, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def worker(k, end):
    d = '/tmp/mut/w%d.%d' % (seed, k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/verif')
    sh('git clone -q /repo repo', d)
    sh('cp -a /verif/harness /verif/check.sh /verif/env.sh verif/; sed -i "s#=> /repo#=> %s/repo#" verif/harness/go.mod' % d, d)
    base = {f: open('%s/repo/%s' % (d, f)).read() for f in files}
    env = dict(os.environ, VERIF_EVIDENCE=d + '/ev')
    while time.time() < end:
        with lock:
            f = rng.choices(files, [W.get(x, 1) for x in files])[0]
            mu = mutate(base[f])
            if mu is None or (f, mu[0], mu[2]) in seen: continue
            seen.add((f, mu[0], mu[2]))
        i, old, new = mu
        lines = base[f].split('\n'); lines[i] = new
        open('%s/repo/%s' % (d, f), 'w').write('\n'.join(lines))
        stats['made'] += 1
        what = '%s:%d: %s => %s' % (f, i + 1, old.strip(), new.strip())
        try:
            rc, _ = sh('. ../verif/env.sh; go build ./... 2>&1', d + '/repo', t=300)
            if rc: stats['nobuild'] += 1; continue
            rc, out = sh('. ../verif/env.sh; timeout -k 5 120 go test -count=1 -vet=off -skip Example_currentyear ./... 2>&1', d + '/repo', t=300)
            if rc: stats['tests'] += 1; continue
            by = None
            res = []
            for c in CHECKS[f].split():
                rc, out = sh('bash ../verif/check.sh %s quick' % c, d + '/repo', env)
                res.append('%s=%d' % (c, rc))
                if rc == 1: by = c; break
            stats['caught' if by else 'missed'] += 1
            with lock:
                log.write(('CAUGHT %s ' % by if by else 'MISSED ') + what + ('' if by and len(res) == 1 else ' ' + ' '.join(res)) + '\n'); log.flush()
        finally:
            open('%s/repo/%s' % (d, f), 'w').write(base[f])
    shutil.rmtree(d, ignore_errors=True)

end = time.time() + secs
ts = [threading.Thread(target=worker, args=(k, end)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
log.write(json.dumps(stats) + '\n'); print(stats)
