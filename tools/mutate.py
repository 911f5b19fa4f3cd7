#!/usr/bin/env python3
"""Mutation campaign (development aid; needs root with mount privileges).

usage: mutate.py gen SEED N OUT.json [FILE...]     random mutants of /repo's sources
       mutate.py run MUTANTS.json RESULTS WORKERS   tests each in private copies of /repo and /verif
       mutate.py worker MUTANTS.json RESULTS DIR    (internal)
A mutant that builds and passes the stable tests is put to the checks that
cover its file; one line per mutant goes to RESULTS."""
import fcntl, glob, json, os, random, re, shutil, subprocess, sys, time

MAP = [
    (r'src/', 'P26 P25 P23'),
    (r'distributions/crp', 'P19 P20 P21 P07 P04 P02 P05'),
    (r'distributions/|emissions/', 'P20 P21 P19 P07 P01 P06 P16 P18 P14'),
    (r'cxx/irm\.|cxx/domain', 'P02 P03 P01 P04 P18 P10 P05 P07 P15 P22'),
    (r'cxx/hirm\.', 'P02 P05 P16 P03 P01 P18 P06 P10 P15 P22'),
    (r'clean_relation', 'P01 P02 P04 P18 P16 P06 P03 P15 P22'),
    (r'noisy_relation', 'P06 P02 P01 P03 P16 P18 P15 P22'),
    (r'transition_latent', 'P06 P01 P03 P15'),
    (r'relation\.', 'P01 P02 P06 P16'),
    (r'gendb', 'P24 P14 P15 P17 P09 P08 P22'),
    (r'cxx/inference', 'P09 P03 P14 P08 P05'),
    (r'pclean/', 'P28 P27 P17 P11 P12 P08 P13 P14 P15'),
    (r'util_math', 'P21 P04 P05 P07 P19'),
    (r'util_io|hirm_main|util_parse|observations', 'P28 P27 P10 P11 P12 P08 P03 P13 P18'),
    (r'', 'P01 P02 P03 P10'),
]
SKIP = re.compile(r'^\s*(//|#|assert\(|template|using |namespace|typedef|static_assert|printf|fprintf|std::cout|std::cerr|<<|cout|class |struct |public:|private:|import |from |"""|def )|assert\(')


def sources(only):
    fs = []
    for p in ('cxx/*.cc', 'cxx/*.hh', 'cxx/distributions/*', 'cxx/emissions/*', 'cxx/pclean/*', 'src/*.py'):
        fs += glob.glob('/repo/' + p)
    fs = [f[6:] for f in fs if f.endswith(('.cc', '.hh', '.py')) and not re.search(r'_test\.|typename_playground|test_|/observations', f)]
    if only:
        fs = [f for f in fs if any(o in f for o in only)]
    return sorted(fs)


OPS = [(r'<=', ['<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r'(?<![<\-\w>])<(?![<=\w])', ['<=']),
       (r' > (?!=)', [' >= ']), (r'&&', ['||']), (r'\|\|', ['&&']), (r' \+ ', [' - ']), (r' - ', [' + ']),
       (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r'\+\+', ['--']), (r'--', ['++']), (r'\+=', ['-=', '=']), (r'-=', ['+=']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bTrue\b', ['False']), (r'\bFalse\b', ['True']),
       (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'\bcontinue;', [';', 'break;']), (r'\bbreak;', [';', 'continue;']),
       (r'std::max', ['std::min']), (r'std::min', ['std::max']), (r'if \((?!!)', ['if (!']), (r'!(?=[\w(])', ['']),
       (r'\band\b', ['or']), (r'\bor\b', ['and']), (r'\bnot ', ['']), (r'0\.5', ['1.0']), (r'\.begin\(\)', ['.end()']),
       (r'\.insert\(', ['.erase(']), (r'std::log\(', ['(']), (r'lgamma\(', ['(']), (r'exp\(', ['(']),
       (r'_clean\b', ['_noisy']), (r'logp_score\(\)', ['logp_score() * 0']), (r'\bw\b', ['1.0'])]


def gen(seed, n, out, only):
    rng = random.Random(seed)
    cands = []
    for f in sources(only):
        lines = open('/repo/' + f).read().split('\n')
        incomment = False
        for i, l in enumerate(lines):
            if '"""' in l and l.count('"""') == 1: incomment = not incomment
            if incomment or SKIP.search(l) or not l.strip(): continue
            code = l.split('//')[0]
            here = []
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2: continue
                    for r in reps:
                        here.append(code[:m.start()] + r + code[m.end():])
            s = code.strip()
            if re.match(r'^[\w\->.\[\]()*:]+(\(.*\)| [-+*]?= .*|\+\+|--);$', s) and not re.match(r'^(return|delete|using)\b', s) and '{' not in s:
                here += [code[:len(code) - len(code.lstrip())] + ';'] * 2
            if f.endswith('.py') and re.match(r'^(self|[\w.\[\]]+)[\w.\[\]]*(\(.*\)| [-+]?= .*)$', s):
                here.append(code[:len(code) - len(code.lstrip())] + 'pass')
            m = re.search(r'\b(\w+)\((\w+), (\w+)\)', code)
            if m and m.group(2) != 'prng' and ';' in code:
                here.append(code[:m.start(2)] + m.group(3) + ', ' + m.group(2) + code[m.end(3):])
            for h in here:
                cands.append((f, i, l, h))
    # spread over files: weight by sqrt of the number of candidates of a file
    byf = {}
    for c in cands: byf.setdefault(c[0], []).append(c)
    res, seen = [], set()
    fs = sorted(byf)
    while len(res) < n and fs:
        f = rng.choices(fs, [len(byf[x]) ** 0.7 for x in fs])[0]
        c = rng.choice(byf[f])
        if (c[0], c[1], c[3]) in seen: continue
        if sum(1 for r in res if (r[0], r[1]) == (c[0], c[1])) >= 2: continue
        seen.add((c[0], c[1], c[3]))
        res.append(c)
    json.dump(res, open(out, 'w'), indent=0)
    print(len(cands), 'candidates,', len(res), 'chosen')


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, 'TIMEOUT'


def worker(mutants, results, d):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    ms = json.load(open(mutants))
    while True:
        with open(results + '.next', 'a+') as fh:
            fcntl.flock(fh, fcntl.LOCK_EX)
            fh.seek(0)
            t = fh.read().strip()
            k = int(t) if t else 0
            if k >= len(ms) or os.path.exists(results + '.stop'): return
            fh.seek(0); fh.truncate(); fh.write(str(k + 1))
        f, i, old, new = ms[k]
        path = '/repo/' + f
        src = open(path).read()
        lines = src.split('\n')
        assert lines[i] == old, (f, i)
        lines[i] = new
        t0 = time.time()
        open(path, 'w').write('\n'.join(lines))
        res = ''
        try:
            rc, o = sh('bash /opt/vp/build.sh', 600)
            if rc:
                res = 'NOBUILD'
            else:
                sh('bash /opt/vp/test.sh /tmp/out.json', 400)
                try: miss = base - set(json.load(open('/tmp/out.json'))['passed'])
                except Exception: miss = {'none'}
                if miss:
                    res = 'TESTS ' + sorted(miss)[0]
                else:
                    props = next(p for r, p in MAP if re.search(r, f)).split()
                    if f.endswith('.hh') or f.endswith('.cc'): pass
                    seen = []
                    for p in props:
                        rc, o = sh('python3 /verif/bin/check %s quick' % p, 900)
                        seen.append('%s:%d' % (p, rc))
                        if rc == 1:
                            m = re.search(r'class: (\S+)', o)
                            res = 'CAUGHT %s %s' % (p, m.group(1) if m else '?')
                            break
                        if rc not in (0, 1):
                            res = 'NOANSWER %s %s' % (p, o[-200:].replace('\n', ' '))
                            break
                    if not res: res = 'SURVIVED ' + ' '.join(seen)
        finally:
            open(path, 'w').write(src)
        with open(results, 'a') as fh:
            fh.write('%d\t%s\t%s:%d\t%s\t=>\t%s\t(%.0f s)\n' % (k, res, f, i + 1, old.strip(), new.strip(), time.time() - t0))


def run(mutants, results, W):
    mutants, results = os.path.abspath(mutants), os.path.abspath(results)
    ps = []
    for w in range(W):
        d = '/var/tmp/mut/w%d' % w
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/tmp')
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        subprocess.run(['cp', '-a', '/verif', d + '/verif'], check=True)
        env = dict(os.environ, SIM_JOBS=str(max(1, 8 // W)), VERIF_SEED='1', VERIF_TIER='quick')
        ps.append(subprocess.Popen(['unshare', '-m', 'bash', '-c',
            'mount --bind %s/repo /repo; mount --bind %s/verif /verif; mount --bind %s/tmp /tmp; cd /; python3 /verif/tools/mutate.py worker %s %s %s' % (d, d, d, mutants, results, d)], env=env))
    for p in ps: p.wait()
    for w in range(W): shutil.rmtree('/var/tmp/mut/w%d' % w, ignore_errors=True)


if sys.argv[1] == 'gen': gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:])
elif sys.argv[1] == 'run': run(sys.argv[2], sys.argv[3], int(sys.argv[4]))
else: worker(*sys.argv[2:5])
