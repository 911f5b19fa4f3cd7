#!/usr/bin/env python3
"""usage: hand.py run FILE.py RESULTS WORKERS [NAME...]   (development aid, needs mount privileges)
Applies each hand-written change of a tools/plants/handN.py in private mounts of
/repo and /verif, builds, runs the stable tests and the check of its property."""
import importlib.util, json, os, re, shutil, subprocess, sys, time

def load(f):
    s = importlib.util.spec_from_file_location('h', f); h = importlib.util.module_from_spec(s); s.loader.exec_module(h)
    return h.M

def sh(c, t):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, 'timeout'

def worker(f, results, d, names):
    base = json.load(open('/opt/vp/BASELINE.json'))
    for name, prop, edits in load(f):
        if names and name not in names: continue
        try: os.close(os.open(results + '.' + name + '.lock', os.O_CREAT | os.O_EXCL))
        except FileExistsError: continue
        if os.path.exists(results + '.stop'): return
        t0 = time.time(); res = None; saved = {}
        for path, old, new in edits:
            p = '/repo/' + path; src = open(p).read(); saved.setdefault(p, src)
            if src.count(old) != 1: res = 'BADEDIT %d' % src.count(old); break
            open(p, 'w').write(src.replace(old, new))
        if not res:
            rc, o = sh('bash /opt/vp/build.sh', 600)
            if rc: res = 'NOBUILD ' + re.sub(r'\s+', ' ', '; '.join(re.findall(r'error: .*', o)))[:150]
        if not res:
            sh('bash /opt/vp/test.sh /tmp/out.json', 300)
            try: m = sorted(set(base['stable']) - set(json.load(open('/tmp/out.json'))['passed']))
            except Exception: m = ['?']
            if m: res = 'TESTS %s' % m[:2]
        if not res:
          for q in prop.split():
            rc, o = sh('python3 /verif/bin/check %s quick' % q, 900)
            c = re.findall(r'class: (.*)', o)
            res = {0: 'SURVIVED', 1: 'CAUGHT ' + q + ' ' + '; '.join(c[:3])}.get(rc, 'NOANSWER %d %s' % (rc, o[-200:].replace('\n', ' ')))
            if rc: break
        for p, s in saved.items(): open(p, 'w').write(s)
        with open(results, 'a') as fh: fh.write('%s\t%s\t%s\t(%.0f s)\n' % (name, prop, res, time.time() - t0))

if sys.argv[1] == 'run':
    f, results, W, names = os.path.abspath(sys.argv[2]), os.path.abspath(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
    ps = []
    for w in range(W):
        d = '/var/tmp/mut/h%d' % w
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/tmp')
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True); subprocess.run(['cp', '-a', '/verif', d + '/verif'], check=True)
        env = dict(os.environ, SIM_JOBS=os.environ.get("HJ") or str(max(1, 8 // W)), VERIF_SEED='1', VERIF_TIER='quick')
        ps.append(subprocess.Popen(['unshare', '-m', 'bash', '-c',
            'mount --bind %s/repo /repo; mount --bind %s/verif /verif; mount --bind %s/tmp /tmp; cd /; python3 /verif/tools/hand.py worker %s %s %s %s' % (d, d, d, f, results, d, ' '.join(names))], env=env))
    for p in ps: p.wait()
    for w in range(W): shutil.rmtree('/var/tmp/mut/h%d' % w, ignore_errors=True)
else:
    worker(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:])
