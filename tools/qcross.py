"""qcross.py SEED BATCHES: applies as many quiet ('Q') mutants at once as fit together to a scratch copy and runs every check on it"""
import glob, os, random, runpy, subprocess, sys
R = os.environ.get('MUTREPO', '/tmp/w/repo')
seed, batches = int(sys.argv[1]), int(sys.argv[2])
sh = lambda *a: subprocess.run(a, check=True, capture_output=True, text=True).stdout
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
subprocess.run(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'])
sh('git', '-C', R, 'reset', '-q', '--hard', 'FETCH_HEAD')
allq = [(os.path.basename(f)[:-3], m) for f in sorted(glob.glob('/verif/tools/mutants/*.py')) for m in runpy.run_path(f)['MUTS'] if m[2] == 'Q']
random.Random(seed).shuffle(allq)
env = dict(os.environ, CFG_REPO=R, SAV='1')
IDS = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob('/verif/sa/props/p*.py'))
n = len(allq) // batches + 1


def builds():
    p = subprocess.run('. /opt/vp/env.sh; cargo check --offline --workspace --target-dir /tmp/w/qtarget', shell=True, cwd=R, capture_output=True, text=True, executable='/bin/bash')
    return p.returncode == 0


for b in range(batches):
    sh('git', '-C', R, 'checkout', '-q', '--', '.')
    done = []
    for lst, (name, prop, _, edits) in allq[b * n:(b + 1) * n]:
        saved = {f: open(R + '/' + f).read() for f, _, _ in edits}
        okk = True
        for f, old, new in edits:
            s = open(R + '/' + f).read()
            if old not in s:
                okk = False
                break
            open(R + '/' + f, 'w').write(s.replace(old, new, 1))
        if not okk or not builds():
            for f, s in saved.items():
                open(R + '/' + f, 'w').write(s)
            continue
        done.append('%s/%s(%s)' % (lst, name, prop))
    print('BATCH', b, len(done), ' '.join(done), flush=True)
    ps = []
    for i in IDS:
        while len([p for _, p in ps if p.poll() is None]) >= 4:
            import time
            time.sleep(0.5)
        ps.append((i, subprocess.Popen(['timeout', '900', 'python3', '/verif/sa/check.py', i], env=env, stdout=open('/tmp/w/q_%d_%s' % (b, i), 'w'), stderr=subprocess.STDOUT)))
    for i, p in ps:
        p.wait()
        o = open('/tmp/w/q_%d_%s' % (b, i)).read()
        if p.returncode != 0:
            print('   ', i, p.returncode, [l.strip()[:250] for l in o.split('\n') if l.startswith('  ')][:3], o[-200:] if 'VIOLATION' not in o else '', flush=True)
